----------------------------- MODULE BeltRules -----------------------------
(* The belt rules, as named clauses over a complete layout.                 *)
(* g is a sequence of tile ids in reading order; c is a configuration       *)
(*   [w, h        size                                                      *)
(*    wx, wy      does the x / y axis wrap around                           *)
(*    L           maximum number of tiles between underground ends          *)
(*    ub          sides closed to undergrounds <<min x, min y, max x, max y>>*)
(*    bb          sides closed to belts, same order]                        *)
EXTENDS Tiles

Unlimited == 1000      \* "no limit" for c.L
Cells(c) == {<<x, y>> : x \in 0..(c.w - 1), y \in 0..(c.h - 1)}
OFF == <<-1, -1>>      \* outside the layout
\* the cell n steps from p in direction d, or OFF
Step(c, p, d, n) ==
  LET x == p[1] + DX[d] * n
      y == p[2] + DY[d] * n
  IN IF (x < 0 \/ x >= c.w) /\ ~c.wx THEN OFF
     ELSE IF (y < 0 \/ y >= c.h) /\ ~c.wy THEN OFF
     ELSE <<x % c.w, y % c.h>>
At(g, c, p) == g[p[2] * c.w + p[1] + 1]

(* --- adjacency: an output and the input it feeds always meet ------------ *)
AdjacentOK(a, b, d) == Out(a, d) <=> In(b, d)            \* b is in front of a in direction d
\* a splitter directly behind a splitter with the same direction is connected to it
SplitContactOK(a, b, d) == (SDir[a] = d /\ SDir[b] = d) => Out(a, d)
\* an open splitter output must not run into a belt that would take the items anyway
FrontOK(a, b, d) ==
  (IsSplit(a) /\ In(a, d) /\ ~IsSplit(b)) =>
    ~ \/ In(b, Nxt(d)) /\ Out(b, Nxt(d))
      \/ In(b, Prv(d)) /\ Out(b, Prv(d))
      \/ In(b, Nxt(d)) /\ Out(b, d)
      \/ In(b, Prv(d)) /\ Out(b, d)
      \/ In(b, Rev(d)) /\ Out(b, Nxt(d))
      \/ In(b, Rev(d)) /\ Out(b, Prv(d))
\* b is beside a, in direction Nxt(d): the two halves of a splitter facing d
PairOK(a, b, d) == /\ (SDir[a] = d /\ IsHead[a]) => (SDir[b] = d /\ ~IsHead[b])
                   /\ (SDir[b] = d /\ ~IsHead[b]) => (SDir[a] = d /\ IsHead[a])

(* --- undergrounds -------------------------------------------------------- *)
\* the number of steps from p in direction d to the first underground end of that axis, 0 if none is met
\* before leaving the layout or coming round
NextEnd(g, c, p, d) ==
  LET n == IF Axis(d) = 0 THEN c.w ELSE c.h
      hit == {k \in 1..n : LET q == Step(c, p, d, k) IN q # OFF /\ UgAxis[At(g, c, q)] = Axis(d)}
  IN IF hit = {} THEN 0 ELSE CHOOSE k \in hit : \A j \in hit : k <= j
\* tiles in the layout strictly beyond p in direction d (only for an axis that does not wrap)
Beyond(c, p, d) == IF d = RIGHT THEN c.w - 1 - p[1] ELSE IF d = LEFT THEN p[1] ELSE IF d = UP THEN p[2] ELSE c.h - 1 - p[2]
\* is the side passed when leaving in direction d closed?
SideIx(d) == IF d = LEFT THEN 1 ELSE IF d = UP THEN 2 ELSE IF d = RIGHT THEN 3 ELSE 4
UgTowards(t) == IF T[t].k = UGIN THEN Dir(t) ELSE Rev(Dir(t))     \* where the other end lies
PairedOK(g, c, p) ==
  LET t == At(g, c, p) IN
  IsUg(t) =>
    LET d == UgTowards(t)
        k == NextEnd(g, c, p, d)
    IN IF k = 0
         THEN \* runs off an open side of an axis that does not wrap
              /\ ~(IF Axis(d) = 0 THEN c.wx ELSE c.wy)
              /\ Beyond(c, p, d) <= c.L
              /\ ~c.ub[SideIx(d)]
         ELSE LET u == At(g, c, Step(c, p, d, k)) IN
              /\ IsUg(u) /\ T[u].k # T[t].k /\ Dir(u) = Dir(t)
              /\ k >= 2 /\ k - 1 <= c.L
\* with a closed side no underground passes beneath the tiles of that side
\* (for an axis that wraps the closed side cuts the underground there)
Spans(g, c, q, a) ==   \* some underground of axis a passes beneath q
  \E p \in Cells(c) : LET t == At(g, c, p) IN
     IsUg(t) /\ Axis(Dir(t)) = a /\
       LET d == UgTowards(t)
           k == NextEnd(g, c, p, d)
           n == IF Axis(d) = 0 THEN c.w ELSE c.h
       IN \E j \in 1..(IF k = 0 THEN n ELSE k - 1) : Step(c, p, d, j) = q
SideCells(c, s) == CASE s = 1 -> {p \in Cells(c) : p[1] = 0}
                     [] s = 2 -> {p \in Cells(c) : p[2] = 0}
                     [] s = 3 -> {p \in Cells(c) : p[1] = c.w - 1}
                     [] s = 4 -> {p \in Cells(c) : p[2] = c.h - 1}
SideDir(s) == CASE s = 1 -> LEFT [] s = 2 -> UP [] s = 3 -> RIGHT [] s = 4 -> DOWN    \* outwards
UgEdgeCellOK(t, s) == IsUg(t) => UgTowards(t) # SideDir(s)

(* --- sides closed to belts ----------------------------------------------- *)
BeltEdgeOK(t, s) ==
  LET d == SideDir(s) IN
  /\ ~In(t, Rev(d)) /\ ~Out(t, d)
  /\ In(t, d) => T[t].o # NONE
  /\ Out(t, Rev(d)) => T[t].i # NONE

(* --- the clauses ---------------------------------------------------------- *)
Adjacent(g, c) == \A p \in Cells(c), d \in Dirs : LET q == Step(c, p, d, 1) IN q # OFF => AdjacentOK(At(g, c, p), At(g, c, q), d)
Contact(g, c)  == \A p \in Cells(c), d \in Dirs : LET q == Step(c, p, d, 1) IN q # OFF => SplitContactOK(At(g, c, p), At(g, c, q), d)
Front(g, c)    == \A p \in Cells(c), d \in Dirs : LET q == Step(c, p, d, 1) IN q # OFF => FrontOK(At(g, c, p), At(g, c, q), d)
Pairs(g, c)    == \A p \in Cells(c), d \in Dirs :
                    /\ LET q == Step(c, p, Nxt(d), 1) IN
                       IF q = OFF THEN ~(SDir[At(g, c, p)] = d /\ IsHead[At(g, c, p)])
                       ELSE (SDir[At(g, c, p)] = d /\ IsHead[At(g, c, p)]) => (SDir[At(g, c, q)] = d /\ ~IsHead[At(g, c, q)])
                    /\ LET q == Step(c, p, Prv(d), 1) IN
                       IF q = OFF THEN ~(SDir[At(g, c, p)] = d /\ ~IsHead[At(g, c, p)])
                       ELSE (SDir[At(g, c, p)] = d /\ ~IsHead[At(g, c, p)]) => (SDir[At(g, c, q)] = d /\ IsHead[At(g, c, q)])
Undergrounds(g, c) == \A p \in Cells(c) : PairedOK(g, c, p)
\* the cells with an underground of axis a beneath them (the q with Spans(g, c, q, a))
Spanned(g, c, a) ==
  UNION {LET d == UgTowards(At(g, c, p))
             k == NextEnd(g, c, p, d)
             n == IF Axis(d) = 0 THEN c.w ELSE c.h
         IN {Step(c, p, d, j) : j \in 1..(IF k = 0 THEN n ELSE k - 1)} : p \in {q \in Cells(c) : UgAxis[At(g, c, q)] = a}}
UgEdges(g, c)  == (\E s \in 1..4 : c.ub[s]) =>
                    LET across == Spanned(g, c, 0)
                        along == Spanned(g, c, 1)
                    IN \A s \in 1..4 : c.ub[s] =>
                         \A p \in SideCells(c, s) : UgEdgeCellOK(At(g, c, p), s) /\ p \notin (IF Axis(SideDir(s)) = 0 THEN across ELSE along)
BeltEdges(g, c) == \A s \in 1..4 : c.bb[s] => \A p \in SideCells(c, s) : BeltEdgeOK(At(g, c, p), s)

BrokenRules(g, c) ==
  (IF Adjacent(g, c) THEN {} ELSE {"adjacent"}) \cup (IF Contact(g, c) THEN {} ELSE {"splitter-contact"})
  \cup (IF Front(g, c) THEN {} ELSE {"splitter-front"}) \cup (IF Pairs(g, c) THEN {} ELSE {"splitter-pair"})
  \cup (IF Undergrounds(g, c) THEN {} ELSE {"underground"}) \cup (IF UgEdges(g, c) THEN {} ELSE {"underground-edge"})
  \cup (IF BeltEdges(g, c) THEN {} ELSE {"belt-edge"})
Valid(g, c) == BrokenRules(g, c) = {}
=============================================================================
