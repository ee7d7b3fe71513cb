------------------------------- MODULE Grids -------------------------------
(* Layouts as the conversion tools handle them: a record [w, h, s] with s a  *)
(* sequence of tile ids in reading order.  Besides the belt tiles of Tiles   *)
(* there are 45 a filler, 46 + 2 * d + k an inserter of kind k facing d and  *)
(* 54 + 3 * y + x the part in column x, row y of a 3 by 3 machine.           *)
(* A splitter half does not say which of its sides are connected.            *)
EXTENDS Tiles

FILLER == 45
Ins(d, k) == 46 + 2 * d + k
IsIns(t) == t >= 46 /\ t <= 53
IsPart(t) == t >= 54
Part(x, y) == 54 + 3 * y + x
InsDir(t) == (t - 46) \div 2
InsKind(t) == (t - 46) % 2
BeltId(i, o) == CHOOSE t \in 1..12 : T[t].i = i /\ T[t].o = o
SplitId(d, h) == 21 + 6 * d + (IF h THEN 3 ELSE 0)
Canon(t) == IF t <= 44 THEN (IF IsSplit(t) THEN SplitId(SDir[t], IsHead[t]) ELSE t) ELSE t
XTiles == 0..62
XIsSplit(t) == t <= 44 /\ T[IF t <= 44 THEN t ELSE 0].k = SPLIT
XIsBelt(t) == t <= 44 /\ T[IF t <= 44 THEN t ELSE 0].k = BELT

\* a tile with every direction d replaced by f[d]; mirror says whether f is a reflection
MapTile(t, f, mirror) ==
  IF IsPart(t) THEN LET x == (t - 54) % 3
                        y == (t - 54) \div 3
                    IN IF mirror THEN Part(2 - x, y) ELSE Part(y, 2 - x)       \* the two maps used below
  ELSE IF t = 0 \/ t = FILLER THEN t
  ELSE IF IsIns(t) THEN Ins(f[InsDir(t)], InsKind(t))
  ELSE IF XIsBelt(t) THEN BeltId(f[T[t].i], f[T[t].o])
  ELSE IF XIsSplit(t) THEN SplitId(f[SDir[t]], IF mirror THEN ~IsHead[t] ELSE IsHead[t])
  ELSE IF t <= 16 THEN 13 + f[t - 13] ELSE 17 + f[t - 17]
TurnD == [d \in Dirs |-> Nxt(d)]
FlipD == [d \in Dirs |-> IF Axis(d) = 0 THEN Rev(d) ELSE d]
TurnT == [t \in XTiles |-> MapTile(Canon(t), TurnD, FALSE)]
FlipT == [t \in XTiles |-> MapTile(Canon(t), FlipD, TRUE)]
GAt(g, x, y) == g.s[y * g.w + x + 1]
Make(w, h, F(_, _)) == [w |-> w, h |-> h, s |-> [n \in 1..(w * h) |-> F((n - 1) % w, (n - 1) \div w)]]

\* ---- the symmetries of the square -------------------------------------------
Rot90(g) == Make(g.h, g.w, LAMBDA x, y : TurnT[GAt(g, g.w - 1 - y, x)])      \* anticlockwise
FlipX(g) == Make(g.w, g.h, LAMBDA x, y : FlipT[GAt(g, g.w - 1 - x, y)])
Rot180(g) == Rot90(Rot90(g))
Rot270(g) == Rot90(Rot180(g))
FlipY(g) == Rot270(FlipX(Rot90(g)))

\* ---- what a blueprint keeps --------------------------------------------------
\* the direction in which tile t hands items on, NONE if it does not
Gives(t) == IF t > 44 THEN NONE ELSE T[Canon(t)].o
Where(g, x, y) == IF x < 0 \/ y < 0 \/ x >= g.w \/ y >= g.h THEN 0 ELSE GAt(g, x, y)
\* a belt is bent exactly when one single neighbour feeds it, from the side
Reshape(g) == Make(g.w, g.h, LAMBDA x, y :
  LET t == GAt(g, x, y) IN
  IF ~XIsBelt(t) THEN Canon(t)
  ELSE LET o == T[t].o
           feeders == {d \in Dirs \ {Rev(o)} : Gives(Where(g, x - DX[d], y - DY[d])) = d}
       IN BeltId(IF Cardinality(feeders) = 1 THEN CHOOSE d \in feeders : TRUE ELSE o, o))
Used(g) == {n \in 1..Len(g.s) : g.s[n] # 0}
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
Crop(g) ==
  LET xs == {(n - 1) % g.w : n \in Used(g)}
      ys == {(n - 1) \div g.w : n \in Used(g)}
  IN IF Used(g) = {} THEN [w |-> 0, h |-> 0, s |-> <<>>]
     ELSE LET x0 == MinOf(xs)
              y0 == MinOf(ys)
          IN Make(MaxOf(xs) - x0 + 1, MaxOf(ys) - y0 + 1, LAMBDA x, y : GAt(g, x + x0, y + y0))
NoFillers(g) == [g EXCEPT !.s = [n \in 1..Len(g.s) |-> IF g.s[n] = FILLER THEN 0 ELSE Canon(g.s[n])]]
\* both halves of every splitter are there
Whole(g) == \A n \in 1..Len(g.s) : XIsSplit(g.s[n]) =>
              LET x == (n - 1) % g.w
                  y == (n - 1) \div g.w
                  d == SDir[g.s[n]]
                  e == IF IsHead[g.s[n]] THEN Nxt(d) ELSE Prv(d)
              IN Where(g, x + DX[e], y + DY[e]) \in {u \in 21..44 : SDir[u] = d /\ IsHead[u] # IsHead[g.s[n]]}
Through(g) == Crop(Reshape(NoFillers(g)))      \* exported and imported again
=============================================================================
