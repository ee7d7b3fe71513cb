------------------------------- MODULE Tiles -------------------------------
(* Directions and the tile alphabet of a belt layout.                       *)
(* A direction is 0 RIGHT, 1 UP, 2 LEFT, 3 DOWN (y grows downwards); 4 is   *)
(* "no connection".  A tile is an integer id; its meaning is the record     *)
(* T[id] = [k, i, o, h]: kind, input direction, output direction, head.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

RIGHT == 0
UP == 1
LEFT == 2
DOWN == 3
NONE == 4
Dirs == 0..3

Rev(d) == (d + 2) % 4
Nxt(d) == (d + 1) % 4      \* quarter turn anticlockwise
Prv(d) == (d + 3) % 4
Axis(d) == d % 2           \* 0 horizontal, 1 vertical
DX == [d \in Dirs |-> IF d = 0 THEN 1 ELSE IF d = 2 THEN -1 ELSE 0]
DY == [d \in Dirs |-> IF d = 3 THEN 1 ELSE IF d = 1 THEN -1 ELSE 0]

EMPTY == 0
BELT == 1
UGIN == 2      \* underground entrance
UGOUT == 3     \* underground exit
SPLIT == 4

Turn == <<0, 1, 3>>
T == [id \in 0..44 |->
        IF id = 0 THEN [k |-> EMPTY, i |-> NONE, o |-> NONE, h |-> FALSE]
        ELSE IF id <= 12 THEN LET d == (id - 1) \div 3
                              IN [k |-> BELT, i |-> d, o |-> (d + Turn[((id - 1) % 3) + 1]) % 4, h |-> FALSE]
        ELSE IF id <= 16 THEN [k |-> UGIN, i |-> id - 13, o |-> NONE, h |-> FALSE]
        ELSE IF id <= 20 THEN [k |-> UGOUT, i |-> NONE, o |-> id - 17, h |-> FALSE]
        ELSE LET s == id - 21
                 d == s \div 6
             IN [k |-> SPLIT,
                 i |-> IF s % 3 = 2 THEN NONE ELSE d,
                 o |-> IF s % 3 = 1 THEN NONE ELSE d,
                 h |-> (s \div 3) % 2 = 1]]
AllTiles == 0..44
\* Direction of an underground end or splitter; NONE for an empty tile; output direction of a belt
Dir(t) == IF T[t].i # NONE /\ T[t].k # BELT THEN T[t].i ELSE T[t].o
IsUg(t) == T[t].k = UGIN \/ T[t].k = UGOUT
IsSplit(t) == T[t].k = SPLIT
IsBelt(t) == T[t].k = BELT
In(t, d) == T[t].i = d
Out(t, d) == T[t].o = d
\* tables for speed
UgAxis == [t \in AllTiles |-> IF IsUg(t) THEN Axis(Dir(t)) ELSE 2]
SDir == [t \in AllTiles |-> IF IsSplit(t) THEN Dir(t) ELSE NONE]
IsHead == [t \in AllTiles |-> T[t].h]
Straight(t, d) == IsBelt(t) /\ In(t, d) /\ Out(t, d)
=============================================================================
