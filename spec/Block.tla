------------------------------- MODULE Block -------------------------------
(* Blocks of belts, as make_block prints them.  A configuration has, besides *)
(* the fields of Layout,                                                     *)
(*    rules     pruning patterns that are excluded                            *)
(*    noPar     no two undergrounds of the same axis run side by side         *)
(*    single    all tiles form one loop                                       *)
EXTENDS Layout, Patterns

\* instances of the excluded patterns, shared by the configurations of the same shape
Shape(c) == <<c.w, c.h, c.wx, c.wy, c.L, c.rules>>
BadOf == LET shapes == {Shape(Cfgs[i]) : i \in 1..NC}
         IN [sh \in shapes |-> LET c == Cfgs[CHOOSE i \in 1..NC : Shape(Cfgs[i]) = sh] IN UNION {Instances(c.rules[r], c) : r \in 1..Len(c.rules)}]

\* two tiles next to each other across axis a, both with an underground of that axis beneath them
SideBySide(s, c) == \E p \in Cells(c), d \in {RIGHT, UP} :
                      LET q == Step(c, p, Nxt(d), 1) IN q # OFF /\ Spans(s, c, p, Axis(d)) /\ Spans(s, c, q, Axis(d))
\* where items on tile p go next
Onwards(s, c, p) ==
  LET t == At(s, c, p) IN
  IF T[t].k = UGIN THEN Step(c, p, Dir(t), NextEnd(s, c, p, Dir(t)))
  ELSE IF T[t].o = NONE THEN OFF ELSE Step(c, p, T[t].o, 1)
RECURSIVE Tour(_, _, _, _)
Tour(s, c, p, seen) == IF p = OFF THEN FALSE
                       ELSE IF p \in seen THEN p = <<0, 0>> /\ seen = Cells(c) ELSE Tour(s, c, Onwards(s, c, p), seen \cup {p})
OneLoop(s, c) == Tour(s, c, <<0, 0>>, {})
Clause(ok, name) == IF ok THEN {} ELSE {name}
BlockBroken(s, c) ==
  LET rules == BrokenRules(s, c) IN
  IF rules # {} THEN rules
  ELSE Clause(\A n \in 1..Len(s) : s[n] \in Range(c.allowed[((n - 1) % Len(c.allowed)) + 1]), "tile-not-allowed")
       \cup Clause(~Contains(BadOf[Shape(c)], s, c), "excluded-pattern")
       \cup Clause(c.noPar => ~SideBySide(s, c), "parallel-undergrounds")
       \cup Clause(c.single => OneLoop(s, c), "single-loop")
KEmit == (Complete /\ BlockBroken(g, Cfgs[ci]) = {}) => PrintT("@L " \o ToJson(<<ci, g>>))

\* judging given layouts
VARIABLE l
Cases == JsonDeserialize(IOEnv.CASES)
JInit == l \in 1..Len(Cases) /\ ci = Cases[l][1] /\ g = Cases[l][2]
JNext == UNCHANGED <<ci, g, l>>
JEmit == PrintT("@J " \o ToJson(<<l, BlockBroken(g, Cfgs[ci])>>))
KInit == Init /\ l = 0
KNext == Next /\ UNCHANGED l
=============================================================================
