------------------------------ MODULE Patterns ------------------------------
(* The wasteful patterns the optional pruning rules remove.  A pattern is    *)
(* given by its instances in a layout of a configuration c (w, h, wx, wy, L):*)
(* an instance is a set of pairs <<cell, tiles>>, and a layout contains the  *)
(* pattern when for some instance every named cell holds one of the tiles.   *)
EXTENDS BeltRules

\* ---- sets of tiles ---------------------------------------------------------
TS(P(_)) == {t \in AllTiles : P(t)}
SEmpty == {0}
SIn == [d \in Dirs |-> TS(LAMBDA t : In(t, d))]
SOut == [d \in Dirs |-> TS(LAMBDA t : Out(t, d))]
SSplit == TS(IsSplit)
SBelt == TS(IsBelt)
SHead == TS(LAMBDA t : IsHead[t])
SStraight == [d \in Dirs |-> TS(LAMBDA t : Straight(t, d))]
SEntrance == [d \in Dirs |-> {13 + d}]
SExit == [d \in Dirs |-> {17 + d}]
SNoEnd == [a \in {0, 1} |-> TS(LAMBDA t : UgAxis[t] # a)]     \* anything an underground of axis a can pass beneath

Pos(c, x, y) == IF (x < 0 \/ x >= c.w) /\ ~c.wx THEN OFF
                ELSE IF (y < 0 \/ y >= c.h) /\ ~c.wy THEN OFF ELSE <<x % c.w, y % c.h>>
\* i steps along d and j along a from p
Cell(c, p, d, i, a, j) == Pos(c, p[1] + DX[d] * i + DX[a] * j, p[2] + DY[d] * i + DY[a] * j)
Across(d) == {Nxt(d), Prv(d)}
\* instances that lie in the layout
Inside(S) == {I \in S : \A e \in I : e[1] # OFF}
MaxDim(c) == IF c.w > c.h THEN c.w ELSE c.h
Min(a, b) == IF a < b THEN a ELSE b

\* an underground in direction d whose entrance is i steps from p and which passes beneath m tiles
Underground(c, p, d, i, m, mid) ==
  {<<Cell(c, p, d, i, d, 0), SEntrance[d]>>, <<Cell(c, p, d, i + m + 1, d, 0), SExit[d]>>}
  \cup {<<Cell(c, p, d, i + k, d, 0), mid>> : k \in 1..m}

\* ---- the patterns ------------------------------------------------------------
\* an underground with nothing above it
EmptyUnderground(c) ==
  Inside({Underground(c, p, d, 0, m, SEmpty) : p \in Cells(c), d \in Dirs, m \in 1..Min(c.L, MaxDim(c) - 2)})
\* four belts round a 2 by 2 loop
SmallLoop(c) ==
  LET blk(p, a, b, e, f) == {<<p, a>>, <<Cell(c, p, RIGHT, 1, DOWN, 0), b>>, <<Cell(c, p, RIGHT, 1, DOWN, 1), e>>, <<Cell(c, p, RIGHT, 0, DOWN, 1), f>>}
      turn(i, o) == SIn[i] \cap SOut[o]
  IN Inside({blk(p, turn(UP, RIGHT), turn(RIGHT, DOWN), turn(DOWN, LEFT), turn(LEFT, UP)) : p \in Cells(c)}
            \cup {blk(p, turn(LEFT, DOWN), turn(UP, LEFT), turn(RIGHT, UP), turn(DOWN, RIGHT)) : p \in Cells(c)})
\* a splitter with two straight belts behind it (the outermost splitters facing right are exempt)
GlueSplitter(c) ==
  Inside({{<<p, SHead \cap SIn[d]>>, <<Cell(c, p, d, -1, Nxt(d), 0), SStraight[d]>>, <<Cell(c, p, d, -1, Nxt(d), 1), SStraight[d]>>} :
           p \in Cells(c), d \in Dirs \ {RIGHT}}
  \cup {{<<p, SHead \cap SIn[RIGHT]>>, <<Cell(c, p, RIGHT, -1, UP, 0), SStraight[RIGHT]>>, <<Cell(c, p, RIGHT, -1, UP, 1), SStraight[RIGHT]>>} :
           p \in {q \in Cells(c) : q[1] # 1 /\ q[1] # c.w - 2}})
\* a splitter with one input that could be moved forwards along its two outgoing straight belts; not in the last column
GluePartial(c) ==
  LET keep(I) == \A e \in I : e[1] # OFF
      one(p, d, a0, a1) == {<<p, a0>>, <<Cell(c, p, d, 0, Nxt(d), 1), a1>>,
                            <<Cell(c, p, d, 1, Nxt(d), 0), SStraight[d]>>, <<Cell(c, p, d, 1, Nxt(d), 1), SStraight[d]>>}
      \* the whole block stays out of the last column
      ok(p, d) == p[1] <= c.w - 2 /\ p[1] + DX[d] + DX[Nxt(d)] <= c.w - 2
  IN UNION {UNION {IF ok(p, d)
        THEN {I \in {one(p, d, SHead \cap SIn[d], AllTiles \ SIn[d]),
                     one(p, d, AllTiles \ SIn[d], (SSplit \ SHead) \cap SIn[d])} : keep(I)}
        ELSE {} : d \in Dirs} : p \in Cells(c)}
\* a straight belt in line with an underground that could be longer; everything between the columns x0 and x1
ExpandUnderground(c, x0, x1) ==
  LET ok(I) == \A e \in I : e[1] # OFF /\ e[1][1] >= x0 /\ e[1][1] <= x1
  IN IF c.L >= Unlimited
       THEN {I \in {{<<p, SStraight[d]>>, <<Cell(c, p, d, 1, d, 0), SEntrance[d]>>} : p \in Cells(c), d \in Dirs}
                   \cup {{<<p, SExit[d]>>, <<Cell(c, p, d, 1, d, 0), SStraight[d]>>} : p \in Cells(c), d \in Dirs} : ok(I)}
       ELSE {I \in {{<<p, SStraight[d]>>} \cup Underground(c, p, d, 1, m, SNoEnd[Axis(d)]) : p \in Cells(c), d \in Dirs, m \in 1..Min(c.L - 1, MaxDim(c))}
                   \cup {{<<Cell(c, p, d, m + 2, d, 0), SStraight[d]>>} \cup Underground(c, p, d, 0, m, SNoEnd[Axis(d)]) :
                          p \in Cells(c), d \in Dirs, m \in 1..Min(c.L - 1, MaxDim(c))} : ok(I)}
\* a belt that goes once round a corner to arrive beside itself
BeltHook(c) ==
  Inside(UNION {UNION {{ {<<p, SBelt \cap SIn[i] \cap SOut[d]>>, <<Cell(c, p, d, 1, a, 0), SOut[a]>>, <<Cell(c, p, d, 1, a, 1), SOut[Rev(d)]>>,
            <<Cell(c, p, d, 0, a, 1), SBelt \cap SOut[o]>>} : i \in {d, a}, o \in {a, Rev(d)}} : a \in Across(d)} : p \in Cells(c), d \in Dirs})
\* two undergrounds in line, the second directly after the first, that one underground could replace
Mergeable(c) ==
  Inside({Underground(c, p, d, 0, m, SNoEnd[Axis(d)]) \cup Underground(c, p, d, m + 2, n - m - 2, SNoEnd[Axis(d)]) :
            p \in Cells(c), d \in Dirs, <<n, m>> \in {nm \in (4..Min(c.L, MaxDim(c) - 2)) \X (1..MaxDim(c)) : nm[2] <= nm[1] - 3}})
\* a half circle round an empty tile
Semicircle(c) ==
  Inside(UNION {UNION {{ {<<p, SIn[i] \ (IF i = a THEN SSplit ELSE {})>>, <<Cell(c, p, d, 1, a, 0), SEmpty>>,
              <<Cell(c, p, d, 2, a, 0), (SIn[Rev(a)] \cap SOut[o]) \ (IF o = Rev(a) THEN SSplit ELSE {})>>,
              <<Cell(c, p, d, 0, a, 1), SIn[a]>>, <<Cell(c, p, d, 1, a, 1), SIn[d] \ SSplit>>, <<Cell(c, p, d, 2, a, 1), SIn[d]>>} :
              i \in {d, a}, o \in {Rev(a), d}} : a \in Across(d)} : p \in Cells(c), d \in Dirs})
\* belts winding into an underground entrance (or out of an exit) that continues beneath an empty tile
UndergroundHook(c) ==
  Inside(UNION {UNION {{ {<<Cell(c, p, d, 1, a, 0), SEmpty>>, <<p, SEntrance[d]>>, <<Cell(c, p, d, -1, a, 0), SIn[a]>>,
              <<Cell(c, p, d, -1, a, -1), SIn[Rev(d)]>>, <<Cell(c, p, d, 0, a, -1), SIn[i] \ SSplit>>} : i \in {Rev(d), a}}
          \cup { {<<Cell(c, p, d, 1, a, 0), SEmpty>>, <<p, SExit[Rev(d)]>>, <<Cell(c, p, d, -1, a, 0), SOut[Rev(a)]>>,
              <<Cell(c, p, d, -1, a, -1), SOut[d]>>, <<Cell(c, p, d, 0, a, -1), SOut[o] \ SSplit>>} : o \in {d, Rev(a)}} : a \in Across(d)} : p \in Cells(c), d \in Dirs})
Zigzag(c) ==
  Inside(UNION {{ {<<p, SIn[d] \cap SOut[a]>>, <<Cell(c, p, d, 1, a, 0), SEmpty>>, <<Cell(c, p, d, 0, a, 1), SOut[d]>>, <<Cell(c, p, d, 1, a, 1), SOut[a]>>} :
            a \in Across(d)} : p \in Cells(c), d \in Dirs})
\* a belt running beside a splitter it could have joined
ParallelSplitter(c) ==
  Inside(UNION {UNION {{ {<<p, (SIn[i] \cap SOut[d]) \ (IF i = d THEN SSplit ELSE {})>>, <<Cell(c, p, d, 0, a, 1), SOut[a]>>,
              <<Cell(c, p, d, 1, a, 1), IF a = Nxt(d) THEN SHead ELSE SSplit \ SHead>>} : i \in {d, a}} : a \in Across(d)} :
              p \in Cells(c), d \in Dirs})
\* side by side straight belts next to the ends
DoubleEdge(c) ==
  {{<<<<x, y>>, SStraight[RIGHT]>>, <<<<x, y + 1>>, SStraight[RIGHT]>>} : x \in {1, IF c.w - 2 > 1 THEN c.w - 2 ELSE 1}, y \in 0..(c.h - 2)}
\* an underground whose first or last covered tile is empty
LooseUnderground(c) ==
  Inside({{<<p, SEntrance[d]>>, <<Cell(c, p, d, 1, d, 0), SEmpty>>} : p \in Cells(c), d \in Dirs}
         \cup {{<<p, SExit[d]>>, <<Cell(c, p, d, -1, d, 0), SEmpty>>} : p \in Cells(c), d \in Dirs})

\* an underground coming out behind an empty tile into a turn round an empty tile, seen one way round only
AwkwardEntry(c) ==
  LET a(d) == Nxt(d)
      blk(p, d, i, j) == Cell(c, p, d, i, a(d), j)
      whole(p, d) == \A i, j \in 0..2 : blk(p, d, i, j) # OFF
  IN UNION {UNION {IF whole(p, d)
        THEN {{<<blk(p, d, 0, 0), SEmpty>>, <<blk(p, d, 1, 0), SExit[d]>>, <<blk(p, d, 1, 1), SEmpty>>, <<blk(p, d, 2, 0), SOut[a(d)]>>, <<blk(p, d, 2, 1), SOut[a(d)]>>,
              <<blk(p, d, 2, 2), SOut[Rev(d)]>>, <<blk(p, d, 1, 2), SOut[Rev(d)]>>}} ELSE {} : d \in Dirs} : p \in Cells(c)}

\* two pairs of belts side by side running in opposite directions, left hand to left hand
Passing(c) ==
  Inside({{<<p, SStraight[d]>>, <<Cell(c, p, d, 1, Nxt(d), 0), SStraight[d]>>, <<Cell(c, p, d, 0, Nxt(d), 1), SStraight[Rev(d)]>>,
           <<Cell(c, p, d, 1, Nxt(d), 1), SStraight[Rev(d)]>>} : p \in Cells(c), d \in Dirs})

Instances(rule, c) ==
  CASE rule = "empty-underground" -> EmptyUnderground(c)
    [] rule = "small-loop" -> SmallLoop(c)
    [] rule = "glue-splitter" -> GlueSplitter(c)
    [] rule = "glue-partial" -> GluePartial(c)
    [] rule = "expand-underground" -> ExpandUnderground(c, 0, c.w - 1)
    [] rule = "expand-underground-interior" -> ExpandUnderground(c, 1, c.w - 2)
    [] rule = "belt-hook" -> BeltHook(c)
    [] rule = "mergeable-underground" -> Mergeable(c)
    [] rule = "semicircle" -> Semicircle(c)
    [] rule = "underground-hook" -> UndergroundHook(c)
    [] rule = "zigzag" -> Zigzag(c)
    [] rule = "parallel-splitter" -> ParallelSplitter(c)
    [] rule = "double-edge" -> DoubleEdge(c)
    [] rule = "loose-underground" -> LooseUnderground(c)
    [] rule = "awkward-entry" -> AwkwardEntry(c)
    [] rule = "passing" -> Passing(c)                 \* wasteful when all four are of the same colour
Holds(I, g, c) == \A e \in I : At(g, c, e[1]) \in e[2]
Contains(insts, g, c) == \E I \in insts : Holds(I, g, c)
=============================================================================
