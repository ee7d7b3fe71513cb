------------------------------- MODULE Layout -------------------------------
(* Building layouts tile by tile, in reading order.  The state is the index  *)
(* ci of a configuration in Cfgs and the sequence g of the tiles placed so   *)
(* far.  Place(t) is enabled when the rules that can already be decided hold;*)
(* a complete state is a valid layout (invariant CompleteIsValid) and every  *)
(* valid layout is reached (LayoutSelf.tla compares with brute force).       *)
(* The configurations come from the JSON file named by the environment       *)
(* variable CFG: a sequence of records with the fields of BeltRules'         *)
(* configurations and                                                        *)
(*    allowed     tiles allowed in each cell, repeated cyclically            *)
EXTENDS BeltRules, TLC, Json, IOUtils

VARIABLES ci, g

Cfgs == JsonDeserialize(IOEnv.CFG)
NC == Len(Cfgs)
Range(s) == {s[j] : j \in 1..Len(s)}

\* ---- incremental rules: the tile t is put at cell Len(s) of s ------------
PX(s, c) == Len(s) % c.w
PY(s, c) == Len(s) \div c.w
\* both directions of a pair of neighbours; b lies beyond a in direction d
PairwiseOK(a, b, d) ==
  /\ AdjacentOK(a, b, d) /\ AdjacentOK(b, a, Rev(d))
  /\ SplitContactOK(a, b, d) /\ SplitContactOK(b, a, Rev(d))
  /\ FrontOK(a, b, d) /\ FrontOK(b, a, Rev(d))
  /\ PairOK(a, b, Prv(d)) /\ PairOK(b, a, Nxt(d))     \* b beside a for splitters facing Prv(d) / Nxt(d)
PairTable == [d \in {RIGHT, DOWN} |-> [a \in AllTiles |-> {b \in AllTiles : PairwiseOK(a, b, d)}]]

\* where the other half of a splitter half lies
MateTable == [t \in AllTiles |-> IF IsSplit(t) THEN (IF IsHead[t] THEN Nxt(SDir[t]) ELSE Prv(SDir[t])) ELSE NONE]
Towards == [t \in AllTiles |-> IF IsUg(t) THEN UgTowards(t) ELSE NONE]

\* rules about a single cell
StaticOK(c, n, t) ==
  LET x == (n - 1) % c.w
      y == (n - 1) \div c.w
      side(s) == CASE s = 1 -> x = 0 [] s = 2 -> y = 0 [] s = 3 -> x = c.w - 1 [] s = 4 -> y = c.h - 1
  IN /\ MateTable[t] # NONE => Step(c, <<x, y>>, MateTable[t], 1) # OFF
     /\ \A s \in 1..4 : side(s) => /\ c.bb[s] => BeltEdgeOK(t, s)
                                   /\ c.ub[s] => UgEdgeCellOK(t, s)
StaticSet == [i \in 1..NC |-> LET c == Cfgs[i] IN
               [n \in 1..(c.w * c.h) |-> {t \in Range(c.allowed[((n - 1) % Len(c.allowed)) + 1]) : StaticOK(c, n, t)}]]

\* undergrounds of axis a on the line of cells ending in t; prev = the tiles before t on the line, n = length of
\* the whole line, lo / hi = is its beginning / end closed, wrap = is it a ring (then judged again when complete)
LinePrefixOK(prev, t, n, lo, hi, L, a, wrap) ==
  LET pos == Len(prev)        \* index of t on its line
      fwd == IF a = 0 THEN RIGHT ELSE DOWN
      ends == {j \in 1..pos : UgAxis[prev[j]] = a}
      last == IF ends = {} THEN 0 ELSE CHOOSE j \in ends : \A i \in ends : i <= j
      pend == last # 0 /\ Towards[prev[last]] = fwd        \* an underground is open before t
      gap == pos - last                                    \* tiles strictly between last and t
  IN IF UgAxis[t] = a
       THEN IF Towards[t] = Rev(fwd)
              THEN IF last = 0 THEN pos <= L /\ ~lo
                   ELSE /\ T[prev[last]].k # T[t].k /\ Dir(prev[last]) = Dir(t)
                        /\ gap >= 1 /\ gap <= L
              ELSE /\ ~pend
                   /\ (pos = n - 1 /\ ~wrap) => ~hi
       ELSE pend => /\ gap + 1 <= L
                    /\ (pos = n - 1 /\ ~wrap) => ~hi

RowPrev(s, c) == SubSeq(s, PY(s, c) * c.w + 1, Len(s))
ColPrev(s, c) == LET x == PX(s, c) IN [j \in 1..PY(s, c) |-> s[(j - 1) * c.w + x + 1]]

Candidates(i, s) ==
  LET c == Cfgs[i]
      n == Len(s)
      st == StaticSet[i][n + 1]
      a == IF n % c.w > 0 THEN st \cap PairTable[RIGHT][s[n]] ELSE st
  IN IF n >= c.w THEN a \cap PairTable[DOWN][s[n + 1 - c.w]] ELSE a

\* the remaining rules for t, which is a candidate
DynamicOK(s, t, c) ==
  LET x == PX(s, c)
      y == PY(s, c)
      s2 == Append(s, t)
  IN
  /\ (x = c.w - 1 /\ c.wx) => s2[y * c.w + 1] \in PairTable[RIGHT][t]
  /\ (y = c.h - 1 /\ c.wy) => s2[x + 1] \in PairTable[DOWN][t]
  /\ LinePrefixOK(RowPrev(s, c), t, c.w, c.ub[1], c.ub[3], c.L, 0, c.wx)
  /\ LinePrefixOK(ColPrev(s, c), t, c.h, c.ub[2], c.ub[4], c.L, 1, c.wy)
  \* a line that wraps is judged when it is complete
  /\ (c.wx /\ x = c.w - 1) =>
        LET row == [j \in 1..c.w |-> s2[y * c.w + j]]
            cc == [c EXCEPT !.h = 1, !.wy = FALSE, !.ub = <<c.ub[1], FALSE, c.ub[3], FALSE>>]
            hr == [j \in 1..c.w |-> IF UgAxis[row[j]] = 0 THEN row[j] ELSE 0]
        IN Undergrounds(hr, cc) /\ UgEdges(hr, cc)
  /\ (c.wy /\ y = c.h - 1) =>
        LET col == [j \in 1..c.h |-> s2[(j - 1) * c.w + x + 1]]
            cc == [c EXCEPT !.w = 1, !.wx = FALSE, !.ub = <<FALSE, c.ub[2], FALSE, c.ub[4]>>]
            hc == [j \in 1..c.h |-> IF UgAxis[col[j]] = 1 THEN col[j] ELSE 0]
        IN Undergrounds(hc, cc) /\ UgEdges(hc, cc)

Init == ci \in 1..NC /\ g = <<>>
Place(t) == DynamicOK(g, t, Cfgs[ci]) /\ g' = Append(g, t) /\ UNCHANGED ci
Next == Len(g) < Cfgs[ci].w * Cfgs[ci].h /\ \E t \in Candidates(ci, g) : Place(t)
Spec == Init /\ [][Next]_<<ci, g>>

Complete == Len(g) = Cfgs[ci].w * Cfgs[ci].h
CompleteIsValid == Complete => Valid(g, Cfgs[ci])
=============================================================================
