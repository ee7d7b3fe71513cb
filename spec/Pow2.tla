-------------------------------- MODULE Pow2 --------------------------------
(* The inner stage of balancers whose size is a power of two.  Rows enter in  *)
(* pairs, each pair already balanced by an outer splitter; every splitter     *)
(* inside joins two belts that carry disjoint sets of pairs, equally many;    *)
(* the belts of a pair that leaves carry together every pair once, so that    *)
(* the outer splitters that are added finish the balance (Balanced).          *)
EXTENDS Pruned, Runs

\* every row enters and leaves on a straight belt
EndOK(c, n, t) == (n - 1) % c.w \in {0, c.w - 1} => t = 1
\* splitters have all four sides connected, and there are none when the stage has no levels
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Levels(c) == Log2(c.h) - 2
SplitOK(c, t) == IsSplit(t) => Levels(c) > 0 /\ T[t].i # NONE /\ T[t].o # NONE

PInit == Init
PPlace(t) == LET n == Len(g) + 1
                 c == Cfgs[ci]
             IN /\ EndOK(c, n, t) /\ SplitOK(c, t)
                /\ Place(t)
                /\ NoneEndsAt(Append(g, t), ci, n) = TRUE
PNext == Len(g) < N(Cfgs[ci]) /\ \E t \in Candidates(ci, g) : PPlace(t)

\* ---- the pairs that reach each run ---------------------------------------------
\* m maps the runs settled so far to the set of pairs they carry
RECURSIVE Fill(_, _)
Fill(ps, m) ==
  LET ready == {n \in 1..Len(ps) : ps[n].ins[1] \in DOMAIN m /\ ps[n].ins[2] \in DOMAIN m /\ ps[n].outs[1] \notin DOMAIN m}
  IN IF ready = {} THEN m
     ELSE LET n == CHOOSE k \in ready : TRUE
              S == m[ps[n].ins[1]] \cup m[ps[n].ins[2]]
          IN Fill(ps, [r \in DOMAIN m \cup {ps[n].outs[1], ps[n].outs[2]} |-> IF r \in DOMAIN m THEN m[r] ELSE S])
Entering(s, c) == [r \in {<<0, y>> : y \in 0..(c.h - 1)} |-> {r[2] \div 2}]
AllPairs(c) == 0..(c.h \div 2 - 1)
RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k - 1)
LeavingRun(s, c, y) == RunOf(s, c, <<c.w - 1, y>>)

\* ---- the amounts, in 1/h of a belt of each pair: the flow itself, splitter by splitter ----
RECURSIVE Amounts(_, _, _)
Amounts(c, ps, m) ==
  LET ready == {n \in 1..Len(ps) : ps[n].ins[1] \in DOMAIN m /\ ps[n].ins[2] \in DOMAIN m /\ ps[n].outs[1] \notin DOMAIN m}
  IN IF ready = {} THEN m
     ELSE LET n == CHOOSE k \in ready : TRUE
              f == [p \in AllPairs(c) |-> (m[ps[n].ins[1]][p] + m[ps[n].ins[2]][p]) \div 2]
          IN Amounts(c, ps, [r \in DOMAIN m \cup {ps[n].outs[1], ps[n].outs[2]} |-> IF r \in DOMAIN m THEN m[r] ELSE f])
Balanced(s, c) ==
  LET m == Amounts(c, AllPorts(s, c), [r \in {<<0, y>> : y \in 0..(c.h - 1)} |-> [p \in AllPairs(c) |-> IF p = r[2] \div 2 THEN 2 * c.h ELSE 0]])
  IN \A y \in 0..(c.h \div 2 - 1) : \A p \in AllPairs(c) : m[LeavingRun(s, c, 2 * y)][p] + m[LeavingRun(s, c, 2 * y + 1)][p] = 8

Clause(ok, name) == IF ok THEN {} ELSE {name}
Broken(s, i) ==
  LET c == Cfgs[i]
      rules == BrokenRules(s, c)
  IN IF rules # {} THEN rules
     ELSE IF ~\A n \in 1..N(c) : s[n] \in Range(c.allowed[((n - 1) % Len(c.allowed)) + 1]) THEN {"partial-layout"}
     ELSE IF ~\A n \in 1..N(c) : EndOK(c, n, s[n]) THEN {"ends"}
     ELSE IF ~\A n \in 1..N(c) : SplitOK(c, s[n]) THEN {"splitter-sides"}
     ELSE LET ps == AllPorts(s, c)
              m == Fill(ps, Entering(s, c))
              settled == \A n \in 1..Len(ps) : ps[n].outs[1] \in DOMAIN m
          IN Clause(\A n \in 1..N(c) : NoneEndsAt(s, i, n), "excluded-pattern")
             \cup IF ~settled \/ \E y \in 0..(c.h - 1) : LeavingRun(s, c, y) \notin DOMAIN m THEN {"cyclic"}
                  ELSE LET level(n) == Cardinality(m[ps[n].ins[1]])
                           joins(n) == /\ m[ps[n].ins[1]] \cap m[ps[n].ins[2]] = {}
                                       /\ level(n) = Cardinality(m[ps[n].ins[2]])
                                       /\ \E k \in 0..(Levels(c) - 1) : level(n) = TwoTo(k)
                       IN Clause(\A n \in 1..Len(ps) : joins(n), "joins")
                          \cup Clause(\A k \in 0..(Levels(c) - 1) : Cardinality({n \in 1..Len(ps) : level(n) = TwoTo(k)}) = c.h \div 2, "splitters-per-level")
                          \cup Clause(\A y \in 0..(c.h \div 2 - 1) :
                                        LET a == m[LeavingRun(s, c, 2 * y)]
                                            b == m[LeavingRun(s, c, 2 * y + 1)]
                                        IN a \cap b = {} /\ a \cup b = AllPairs(c), "output-pairs")
PEmit == (Complete /\ Broken(g, ci) = {}) => PrintT("@L " \o ToJson(<<ci, g>>))
\* the request is enough for balance
PBalanced == (Complete /\ Broken(g, ci) = {}) => Balanced(g, Cfgs[ci])

VARIABLE l
Cases == JsonDeserialize(IOEnv.CASES)
JInit == l \in 1..Len(Cases) /\ ci = Cases[l][1] /\ g = Cases[l][2]
JNext == UNCHANGED <<ci, g, l>>
JEmit == LET b == Broken(g, ci) IN PrintT("@J " \o ToJson(<<l, IF b = {} /\ ~Balanced(g, Cfgs[ci]) THEN {"unbalanced"} ELSE b>>))
WInit == PInit /\ l = 0
WNext == PNext /\ UNCHANGED l
=============================================================================
