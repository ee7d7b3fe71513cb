------------------------------- MODULE Printed -------------------------------
(* What generators print: for every cell raw fields and a description of the  *)
(* tile.  A case is <<configuration index, cells>>; a cell is                  *)
(*   [kinds (empty, belt, entrance, exit, splitter), head, i, o (4: none),     *)
(*    under (per direction: an underground passes beneath), tile]              *)
(* with tile = [type, i, o, d, input, head] (-1: not given).                   *)
EXTENDS BeltRules, TLC, Json, IOUtils, Sequences

Cfgs == JsonDeserialize(IOEnv.CFG)
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE l

Kinds == <<EMPTY, BELT, UGIN, UGOUT, SPLIT>>
\* the tiles the raw fields allow
Raw(x) == {t \in AllTiles : /\ \A n \in 1..5 : x.kinds[n] = (IF T[t].k = Kinds[n] THEN 1 ELSE 0)
                            /\ x.i = T[t].i /\ x.o = T[t].o /\ x.head = (IF IsHead[t] THEN 1 ELSE 0)}
\* the description of a tile
Flag(b) == IF b THEN 1 ELSE 0
Described(t) ==
  CASE T[t].k = EMPTY -> [type |-> "empty", i |-> -1, o |-> -1, d |-> -1, input |-> -1, head |-> -1]
    [] T[t].k = BELT -> [type |-> "belt", i |-> T[t].i, o |-> T[t].o, d |-> -1, input |-> -1, head |-> -1]
    [] T[t].k = SPLIT -> [type |-> "splitter", i |-> -1, o |-> -1, d |-> SDir[t], input |-> -1, head |-> Flag(IsHead[t])]
    [] OTHER -> [type |-> "underground_belt", i |-> -1, o |-> -1, d |-> Dir(t), input |-> Flag(T[t].k = UGIN), head |-> -1]
Tile(x) == CHOOSE t \in Raw(x) : TRUE
\* beneath which tiles undergrounds pass, and in which direction
Under(g, c) == UNION {LET d == Dir(At(g, c, p))
                          k == NextEnd(g, c, p, d)
                      IN {<<Step(c, p, d, j), d>> : j \in 1..(k - 1)} : p \in {q \in Cells(c) : T[At(g, c, q)].k = UGIN}}
Verdict(cells, c) ==
  IF \E n \in 1..Len(cells) : Raw(cells[n]) = {} THEN {"no-tile"}
  ELSE LET g == [n \in 1..Len(cells) |-> Tile(cells[n])]
           rules == BrokenRules(g, c)
       IN rules
          \cup (IF \A n \in 1..Len(cells) : cells[n].tile = Described(g[n]) THEN {} ELSE {"description"})
          \cup (IF rules # {} \/ Under(g, c) = {x \in Cells(c) \X Dirs : cells[x[1][2] * c.w + x[1][1] + 1].under[x[2] + 1] = 1} THEN {} ELSE {"beneath"})
Init == l \in 1..Len(Cases)
Next == UNCHANGED l
Emit == PrintT("@V " \o ToJson(<<l, Verdict(Cases[l][2], Cfgs[Cases[l][1]])>>))
==============================================================================
