----------------------------- MODULE Blueprint -----------------------------
(* Blueprints: the entities a layout is exported to, and the layout a map of *)
(* entities stands for.  Coordinates are doubled, so that they are integers: *)
(* an entity on one tile lies on odd coordinates, a splitter half way between *)
(* its tiles.  Directions are the game's: 0 up, 2 right, 4 down, 6 left.      *)
EXTENDS Grids, TLC, Json, IOUtils, SequencesExt

GameDir(d) == ((5 - d) % 4) * 2
OurDir(f) == (5 - (f \div 2)) % 4
\* entity: <<kind, x, y, direction>>; kind is "belt", "in", "out", "splitter", "inserter", "long" or "chest"
EntityOf(g, n) ==
  LET t == g.s[n]
      x == 2 * ((n - 1) % g.w) + 1
      y == 2 * ((n - 1) \div g.w) + 1
  IN IF IsIns(t) THEN <<IF InsKind(t) = 0 THEN "inserter" ELSE "long", x, y, GameDir(Rev(InsDir(t)))>>     \* inserters are described by where they drop
     ELSE IF XIsBelt(t) THEN <<"belt", x, y, GameDir(T[t].o)>>
     ELSE IF XIsSplit(t) THEN LET e == Nxt(SDir[t]) IN <<"splitter", x + DX[e], y + DY[e], GameDir(SDir[t])>>
     ELSE <<IF t <= 16 THEN "in" ELSE "out", x, y, GameDir(Dir(t))>>
Exported(g) == {EntityOf(g, n) : n \in {k \in 1..Len(g.s) : g.s[k] # 0 /\ g.s[k] # FILLER /\ ~(XIsSplit(g.s[k]) /\ ~IsHead[g.s[k]])}}
\* the tiles of an entity: pairs <<doubled position, tile>>
TilesOf(e) ==
  LET d == OurDir(e[4]) IN
  CASE e[1] = "belt" -> {<<<<e[2], e[3]>>, BeltId(d, d)>>}
    [] e[1] = "in" -> {<<<<e[2], e[3]>>, 13 + d>>}
    [] e[1] = "out" -> {<<<<e[2], e[3]>>, 17 + d>>}
    [] e[1] = "inserter" -> {<<<<e[2], e[3]>>, Ins(Rev(d), 0)>>}
    [] e[1] = "long" -> {<<<<e[2], e[3]>>, Ins(Rev(d), 1)>>}
    [] e[1] = "chest" -> {<<<<e[2], e[3]>>, FILLER>>}
    [] e[1] = "machine" -> {<<<<e[2] + 2 * x - 2, e[3] + 2 * y - 2>>, Part(x, y)>> : x \in 0..2, y \in 0..2}
    [] e[1] = "splitter" -> LET q == Nxt(d) IN {<<<<e[2] - DX[q], e[3] - DY[q]>>, SplitId(d, TRUE)>>, <<<<e[2] + DX[q], e[3] + DY[q]>>, SplitId(d, FALSE)>>}
Imported(es) ==
  LET ts == UNION {TilesOf(e) : e \in es}
      x0 == MinOf({t[1][1] : t \in ts})
      y0 == MinOf({t[1][2] : t \in ts})
      x1 == MaxOf({t[1][1] : t \in ts})
      y1 == MaxOf({t[1][2] : t \in ts})
      raw == Make((x1 - x0) \div 2 + 1, (y1 - y0) \div 2 + 1, LAMBDA x, y :
               LET hit == {t \in ts : t[1] = <<x0 + 2 * x, y0 + 2 * y>>} IN IF hit = {} THEN 0 ELSE (CHOOSE t \in hit : TRUE)[2])
  IN IF es = {} THEN [w |-> 0, h |-> 0, s |-> <<>>] ELSE Reshape(raw)
Move(e, dx, dy) == <<e[1], e[2] + 2 * dx, e[3] + 2 * dy, e[4]>>

\* ---- replay: the file CASES holds records with either a layout (w, h, s) or a sequence of entities (e), and a shift (dx, dy)
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE n
Init == n \in 1..Len(Cases)
Next == UNCHANGED n
Layout(c) == [w |-> c.w, h |-> c.h, s |-> [j \in 1..Len(c.s) |-> Canon(c.s[j])]]
Entities(c) == IF "e" \in DOMAIN c THEN {c.e[k] : k \in 1..Len(c.e)} ELSE Exported(Layout(c))
\* exporting and importing keeps the layout, wherever the entities are moved
RoundTrip == LET c == Cases[n] IN ~("e" \in DOMAIN c) =>
               LET g == Layout(c) IN Whole(g) => Imported({Move(e, c.dx, c.dy) : e \in Exported(g)}) = Through(g)
Emit == LET c == Cases[n]
            es == Entities(c)
            g == Imported({Move(e, c.dx, c.dy) : e \in es})
        IN PrintT("@B " \o ToJson(<<n, SetToSeq(es), g.w, g.h, g.s>>))

\* ---- all small maps: a belt in the middle facing right, anything on the four tiles around it ------
VARIABLE around
Kinds == {<<"none", 0>>} \cup ({"belt", "in", "out"} \X {0, 2, 4, 6}) \cup {<<"inserter", 2>>, <<"chest", 0>>}
MapInit == n = 0 /\ around = <<>>
MapNext == Len(around) < 4 /\ (\E k \in Kinds : around' = Append(around, k)) /\ UNCHANGED n
CellsRound == <<<<1, 3>>, <<3, 1>>, <<5, 3>>, <<3, 5>>>>
MapEntities == {<<"belt", 3, 3, 2>>} \cup {<<around[k][1], CellsRound[k][1], CellsRound[k][2], around[k][2]>> : k \in {j \in 1..4 : around[j][1] # "none"}}
MapEmit == Len(around) = 4 => LET g == Imported(MapEntities) IN PrintT("@M " \o ToJson(<<SetToSeq(MapEntities), g.w, g.h, g.s>>))
InitB == Init /\ around = <<>>
NextB == UNCHANGED <<n, around>>
=============================================================================
