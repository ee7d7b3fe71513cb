----------------------------- MODULE Interchange -----------------------------
(* Interchanges: the belts of two halves, one belt per row, woven together    *)
(* so that every pair of rows on the right receives one belt of each half.    *)
(* A configuration has, besides the fields of Layout,                         *)
(*    alt      the halves strictly alternate on the right                     *)
(*    rot      a half turn with every direction reversed changes nothing      *)
(*    rules    excluded pruning patterns                                      *)
EXTENDS Pruned, Runs

\* ---- ends and symmetry --------------------------------------------------------
EndOK(c, n, t) == /\ (n - 1) % c.w = 0 => In(t, RIGHT)
                  /\ (n - 1) % c.w = c.w - 1 => Out(t, RIGHT)
\* what a tile becomes under a half turn with all directions reversed: its input and output change places
Turned == [t \in 0..20 |-> CHOOSE u \in 0..20 : /\ T[u].i = T[t].o /\ T[u].o = T[t].i
                                               /\ T[u].k = (IF T[t].k = UGIN THEN UGOUT ELSE IF T[t].k = UGOUT THEN UGIN ELSE T[t].k)]
TurnOK(c, s, n, t) == c.rot => LET m == N(c) + 1 - n IN IF m = n THEN t = Turned[t] ELSE m < n => t = Turned[s[m]]

IInit == Init
IPlace(t) == LET n == Len(g) + 1
                 c == Cfgs[ci]
             IN /\ EndOK(c, n, t) /\ TurnOK(c, g, n, t)
                /\ Place(t)
                /\ NoneEndsAt(Append(g, t), ci, n) = TRUE
INext == Len(g) < N(Cfgs[ci]) /\ \E t \in Candidates(ci, g) : IPlace(t)

\* ---- the halves ----------------------------------------------------------------
Half(c, y) == IF y < c.h \div 2 THEN 0 ELSE 1
\* the cells of the closed loop through p
RECURSIVE Back(_, _, _, _)
Back(s, c, p, seen) == IF p \in seen THEN seen ELSE Back(s, c, Upstream(s, c, p), seen \cup {p})
Strand(s, c, p) == LET r == RunOf(s, c, p) IN IF r = Loop THEN Back(s, c, p, {}) ELSE {r}
Busy(s, c) == {p \in Cells(c) : At(s, c, p) # 0}
Strands(s, c) == {Strand(s, c, p) : p \in Busy(s, c)}
Fixed(c, r) == Cardinality(r) = 1 /\ \E p \in r : p[1] = 0        \* begins at the left
HalfOf(c, r) == LET p == CHOOSE q \in r : TRUE IN Half(c, p[2])
Row(s, c, y) == LET r == Strand(s, c, <<c.w - 1, y>>) IN IF Fixed(c, r) THEN HalfOf(c, r) ELSE 2
Delivered(s, c) ==
  IF c.alt THEN \A y \in 0..(c.h - 1) : Row(s, c, y) = y % 2
  ELSE \A y \in 0..(c.h \div 2 - 1) : {Row(s, c, 2 * y), Row(s, c, 2 * y + 1)} = {0, 1}
\* pairs of strands with two belts passing each other, left hand to left hand
Passings(s, c) ==
  {<<Strand(s, c, x[1]), Strand(s, c, Cell(c, x[1], x[2], 0, Nxt(x[2]), 1))>> :
     x \in {y \in Cells(c) \X Dirs :
        LET q(i, j) == Cell(c, y[1], y[2], i, Nxt(y[2]), j)
            is(i, j, d) == q(i, j) # OFF /\ Straight(At(s, c, q(i, j)), d)
        IN /\ is(0, 0, y[2]) /\ is(1, 0, y[2]) /\ is(0, 1, Rev(y[2])) /\ is(1, 1, Rev(y[2]))
           /\ Strand(s, c, q(0, 0)) = Strand(s, c, q(1, 0)) /\ Strand(s, c, q(0, 1)) = Strand(s, c, q(1, 1))}}
\* belts of the same half never pass each other (closed loops may count as either half)
NoPassing(s, c) ==
  LET ps == Passings(s, c)
      loops == {r \in UNION {{x[1], x[2]} : x \in ps} : ~Fixed(c, r)}
  IN \E f \in [loops -> {0, 1}] : \A x \in ps : LET h(r) == IF r \in loops THEN f[r] ELSE HalfOf(c, r) IN h(x[1]) # h(x[2])

Clause(ok, name) == IF ok THEN {} ELSE {name}
InterchangeBroken(s, i) ==
  LET c == Cfgs[i]
      rules == BrokenRules(s, c)
  IN IF rules # {} THEN rules
     ELSE Clause(\A n \in 1..N(c) : s[n] \in Range(c.allowed[((n - 1) % Len(c.allowed)) + 1]), "tile-not-allowed")
          \cup LET ends == \A n \in 1..N(c) : EndOK(c, n, s[n]) IN
               IF ~ends THEN {"ends"} ELSE Clause(Delivered(s, c), "halves") \cup Clause(NoPassing(s, c), "passing")
          \cup Clause(\A n \in 1..N(c) : TurnOK(c, s, n, s[n]), "half-turn")
          \cup Clause(\A n \in 1..N(c) : NoneEndsAt(s, i, n), "excluded-pattern")
IEmit == (Complete /\ InterchangeBroken(g, ci) = {}) => PrintT("@L " \o ToJson(<<ci, g>>))

\* judging given layouts
VARIABLE l
Cases == JsonDeserialize(IOEnv.CASES)
JInit == l \in 1..Len(Cases) /\ ci = Cases[l][1] /\ g = Cases[l][2]
JNext == UNCHANGED <<ci, g, l>>
JEmit == PrintT("@J " \o ToJson(<<l, InterchangeBroken(g, ci)>>))
WInit == IInit /\ l = 0
WNext == INext /\ UNCHANGED l
=============================================================================
