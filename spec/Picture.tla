------------------------------ MODULE Picture ------------------------------
(* What the picture of a layout consists of.  Lengths are quarter pixels; a  *)
(* cell is 64 pixels wide and high.  A sprite is                             *)
(*   <<sheet, x0, y0, x1, y1, X0, Y0, X1, Y1>>:                              *)
(* the part of the sheet and the place it is shown at.                       *)
EXTENDS Tiles, TLC, Json, IOUtils

Cell == 256
Round(a, b) == (2 * a + b) \div (2 * b)
\* sheets
Belts == 1  Under == 2  East == 3  EastTop == 4  West == 5  WestTop == 6  North == 7  South == 8
Platform == <<9, 10>>
Machine == 11
HandBase == <<12, 13>>  HandOpen == <<14, 15>>  HandClosed == <<16, 17>>

\* the game's order of the belt sprites: straight ones first, then curves by the sides they connect, then starts and ends
PlainRow == [d \in Dirs |-> CASE d = RIGHT -> 0 [] d = LEFT -> 1 [] d = UP -> 2 [] d = DOWN -> 3]
\* the side a belt comes from is behind its travelling direction
Curve(from, to) == CASE from = RIGHT /\ to = UP -> 4 [] from = UP /\ to = RIGHT -> 5 [] from = LEFT /\ to = UP -> 6 [] from = UP /\ to = LEFT -> 7
                     [] from = DOWN /\ to = RIGHT -> 8 [] from = RIGHT /\ to = DOWN -> 9 [] from = DOWN /\ to = LEFT -> 10 [] from = LEFT /\ to = DOWN -> 11
BeltRow(i, o) == IF i = o THEN PlainRow[i] ELSE Curve(Rev(i), o)
Starting(side) == CASE side = DOWN -> 12 [] side = LEFT -> 14 [] side = UP -> 16 [] side = RIGHT -> 18
Ending(side) == CASE side = DOWN -> 13 [] side = LEFT -> 15 [] side = UP -> 17 [] side = RIGHT -> 19
Compass(d) == (1 - d + 4) % 4      \* columns north, east, south, west

\* a part of a sprite, in 32nds of its size, shown in its natural size from (ox, oy)
Sprite(sheet, w, h, col, row, l, t, r, b, ox, oy) ==
  LET x0 == Round(4 * w * l, 320)  y0 == Round(4 * h * t, 320)  x1 == Round(4 * w * r, 320)  y1 == Round(4 * h * b, 320)
  IN <<sheet, 4 * w * col + x0, 4 * h * row + y0, 4 * w * col + x1, 4 * h * row + y1, ox, oy, ox + Round(4 * w * (r - l), 320), oy + Round(4 * h * (b - t), 320)>>
Whole(sheet, w, h, col, row, ox, oy) == Sprite(sheet, w, h, col, row, 0, 0, 320, 320, ox, oy)
BeltSprite(x, y, row, a) == Whole(Belts, 128, 128, a % 16, row, Cell * x - 128, Cell * y - 128)

\* where a half of a splitter lies: the head is the right hand half
Top(d, head) == (d = RIGHT /\ ~head) \/ (d = LEFT /\ head)
Left(d, head) == (d = UP /\ ~head) \/ (d = DOWN /\ head)
SplitterSprite(d, head, x, y, a) ==
  LET X == Cell * x  Y == Cell * y  c == a % 8  r == (a \div 8) % 4 IN
  CASE d = RIGHT -> IF Top(d, head) THEN Whole(EastTop, 90, 104, c, r, X, Y - 128) ELSE Whole(East, 90, 84, c, r, X, Y - 80)
    [] d = LEFT -> IF Top(d, head) THEN Whole(WestTop, 90, 96, c, r, X, Y - 80) ELSE Whole(West, 90, 86, c, r, X, Y - 80)
    [] d = UP -> IF Left(d, head) THEN Sprite(North, 160, 70, c, r, 0, 0, 130, 320, X, Y) ELSE Sprite(North, 160, 70, c, r, 130, 0, 320, 320, X, Y)
    [] d = DOWN -> IF Left(d, head) THEN Sprite(South, 164, 64, c, r, 0, 0, 140, 320, X - 40, Y) ELSE Sprite(South, 164, 64, c, r, 140, 0, 320, 320, X - 32, Y)
\* a machine is nine tiles
CutX == <<0, 120, 216, 320>>
MachineSprite(mx, my, x, y, a) ==
  LET yt == <<0, 1100, 2025, 3200>>
      x0 == Round(4 * 214 * CutX[mx + 1], 320)  x1 == Round(4 * 214 * CutX[mx + 2], 320)
      y0 == Round(4 * 226 * yt[my + 1], 3200)  y1 == Round(4 * 226 * yt[my + 2], 3200)
      X == Cell * x - (IF mx = 0 THEN 60 ELSE 0)  Y == Cell * y - (IF my = 0 THEN 54 ELSE 0)
      c == a % 8  r == (a \div 8) % 4
  IN <<Machine, 4 * 214 * c + x0, 4 * 226 * r + y0, 4 * 214 * c + x1, 4 * 226 * r + y1, X, Y, X + Round(4 * 214 * (CutX[mx + 2] - CutX[mx + 1]), 320), Y + Round(4 * 226 * (yt[my + 2] - yt[my + 1]), 3200)>>
\* codes above 44: 100 + 4 type + direction is an inserter, 200 + column + 3 row a part of a machine
IsInserter(t) == t \in 100..107
IsMachine(t) == t \in 200..208
Ground(t, x, y, a) ==
  IF IsInserter(t) THEN {Whole(Platform[(t - 100) \div 4 + 1], 105, 79, Compass((t - 100) % 4), 0, Cell * x - 76, Cell * y + 12)}
  ELSE IF IsMachine(t) THEN {MachineSprite((t - 200) % 3, (t - 200) \div 3, x, y, a)}
  ELSE IF IsBelt(t) THEN {BeltSprite(x, y, BeltRow(T[t].i, T[t].o), a)}
  ELSE IF IsSplit(t) THEN {BeltSprite(x, y, PlainRow[Dir(t)], a)}
  ELSE IF T[t].k = UGIN THEN {BeltSprite(x, y, Ending(T[t].i), a)}
  ELSE IF T[t].k = UGOUT THEN {BeltSprite(x, y, Starting(Rev(T[t].o)), a)}
  ELSE {}
Above(t, x, y, a) ==
  IF IsInserter(t) \/ IsMachine(t) THEN {}
  ELSE IF IsSplit(t) THEN {SplitterSprite(Dir(t), T[t].h, x, y, a)}
  ELSE IF T[t].k = UGIN THEN {Whole(Under, 192, 192, Compass(T[t].i), 1, Cell * x - 256, Cell * y - 256)}
  ELSE IF T[t].k = UGOUT THEN {Whole(Under, 192, 192, Compass(Rev(T[t].o)), 0, Cell * x - 256, Cell * y - 256)}
  ELSE {}
\* the two hands of an inserter: sheet, cell and the side its tip is on (none while it passes over the middle); it swings from ahead to behind and back
Side(d, a) == IF a \in 5..11 \cup 21..27 THEN -1 ELSE IF a \in 12..20 THEN Rev(d) ELSE d
Hands(t, x, y, a) == IF IsInserter(t) THEN LET k == (t - 100) \div 4 + 1 IN {<<HandBase[k], x, y, -1>>, <<IF a > 16 THEN HandClosed[k] ELSE HandOpen[k], x, y, Side((t - 100) % 4, a)>>} ELSE {}

\* ---- judging a picture: [w, h, tiles, colours (-1: none), anim, tinted, sprites (with a tint each), hands, lines, ux, uy, cux, cuy, lined, texts, shown] ----
Cases == JsonDeserialize(IOEnv.CASES)
Clause(ok, name) == IF ok THEN {} ELSE {name}
X(c, n) == (n - 1) % c.w
Y(c, n) == (n - 1) \div c.w
Cells(c) == 1..(c.w * c.h)
Geo(s) == SubSeq(s, 1, 9)
G1(c) == UNION {Ground(c.tiles[n], X(c, n), Y(c, n), c.anim) : n \in Cells(c)}
A1(c) == UNION {Above(c.tiles[n], X(c, n), Y(c, n), c.anim) : n \in Cells(c)}
\* tints: 0 white, 1 grey, others distinct
Right(c, colour, tint) == IF ~c.tinted THEN tint = 0 ELSE IF colour = -1 THEN tint = 1 ELSE tint # 1
Judge(c) ==
  LET G == G1(c)
      A == A1(c)
      got == {c.sprites[k] : k \in DOMAIN c.sprites}
      geos == {Geo(s) : s \in got}
      \* colour and tint of everything drawn
      tiles == UNION {{<<c.colours[n], s[10]>> : s \in {q \in got : Geo(q) \in Ground(c.tiles[n], X(c, n), Y(c, n), c.anim) \cup Above(c.tiles[n], X(c, n), Y(c, n), c.anim)}} : n \in Cells(c)}
      lines == {c.lines[k] : k \in DOMAIN c.lines}
      horizontal(n) == <<Cell * X(c, n), Cell * Y(c, n) + 128, Cell * X(c, n) + Cell, Cell * Y(c, n) + 128>>
      vertical(n) == <<Cell * X(c, n) + 128, Cell * Y(c, n), Cell * X(c, n) + 128, Cell * Y(c, n) + Cell>>
      wanted == IF c.lined THEN {<<horizontal(n), c.cux[n]>> : n \in {m \in Cells(c) : c.ux[m]}} \cup {<<vertical(n), c.cuy[n]>> : n \in {m \in Cells(c) : c.uy[m]}} ELSE {}
      tints == tiles \cup UNION {{<<p[2], l[5]>> : l \in {q \in lines : SubSeq(q, 1, 4) = p[1]}} : p \in wanted}
      hands == {c.hands[k] : k \in DOMAIN c.hands}
      wantedHands == UNION {Hands(c.tiles[n], X(c, n), Y(c, n), c.anim) : n \in Cells(c)}
      after == {k \in DOMAIN c.sprites : Geo(c.sprites[k]) \in A}
      before == {k \in DOMAIN c.sprites : Geo(c.sprites[k]) \in G}
  IN Clause(G \cup A \subseteq geos, "missing-sprite")
     \cup Clause(geos \subseteq G \cup A, "wrong-sprite")
     \cup Clause(Len(c.sprites) = Cardinality(G) + Cardinality(A), "drawn-twice")
     \cup Clause(\A i \in before, j \in after : i < j, "belt-over-building")
     \cup Clause(hands = wantedHands, "wrong-hands")
     \cup Clause(\A p \in tints : Right(c, p[1], p[2]), "wrong-tint")
     \cup Clause(c.tinted => \A p, q \in tints : p[1] # -1 /\ q[1] # -1 => ((p[1] = q[1]) <=> (p[2] = q[2])), "mixed-tints")
     \cup Clause({SubSeq(l, 1, 4) : l \in lines} = {p[1] : p \in wanted}, "wrong-underground-lines")
     \cup Clause(c.texts = c.shown, "wrong-text")
VARIABLE at
JInit == at = 1
JNext == at <= Len(Cases) /\ at' = at + 1
JEmit == at <= Len(Cases) => PrintT("@V " \o ToJson(<<at, Judge(Cases[at])>>))

\* ---- the rules themselves: turning a tile turns its sprites, no two tiles look alike ----
Look(t) == <<Ground(t, 1, 1, 0), Above(t, 1, 1, 0)>>
\* unconnected splitter sides are not drawn, all else is
Class(t) == IF IsSplit(t) THEN <<"splitter", Dir(t), T[t].h>> ELSE <<"tile", t, FALSE>>
Distinct == \A t, u \in AllTiles : (Class(t)[1] = Class(u)[1] /\ Class(t) # Class(u)) => Look(t) # Look(u)
AllRows == UNION {{IF T[t].k = BELT THEN BeltRow(T[t].i, T[t].o) ELSE 0 : t \in AllTiles}} = 0..11
Frames == \A t \in AllTiles \ {0} : \A a, b \in 0..15 : a # b => Ground(t, 0, 0, a) # Ground(t, 0, 0, b)
\* the other half of a splitter lies on the side its sprite is made for (the head is to the right of its travelling direction)
Halves == \A d \in Dirs : LET right == <<DX[Prv(d)], DY[Prv(d)]>> IN
            /\ (d \in {RIGHT, LEFT}) => (Top(d, TRUE) <=> right[2] = -1)
            /\ (d \in {UP, DOWN}) => (Left(d, TRUE) <=> right[1] = -1)
SInit == at = 0
SNext == at = 0 /\ at' = 1
=============================================================================
