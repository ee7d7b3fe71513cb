--------------------------- MODULE BalancerJudge ---------------------------
(* Judging given layouts: the file CASES holds pairs <<configuration index,  *)
(* layout>>; the clauses of the specification a layout breaks are printed.   *)
EXTENDS Balancer

RECURSIVE Matches(_, _, _, _)      \* as Match # {}, without listing the assignments
Matches(ps, nodes, left, col) ==
  \/ ps = <<>>
  \/ \E k \in {j \in left : \A i \in left : i < j => nodes[i] # nodes[j]} : \E f \in Fit(nodes[k], Head(ps)) :
       Consistent(col \cup f) /\ Matches(Tail(ps), nodes, left \ {k}, col \cup f)
RECURSIVE MatchesAtEdge(_, _, _, _, _, _)      \* the same, for an assignment m that also meets the edge option
MatchesAtEdge(i, all, n, left, col, m) ==
  LET c == Cfgs[i]
      mayBe(k) == /\ (Count(c, K[i].inCol, {3, 4}) = 0 /\ c.nodes[k][1] = K[i].inCol /\ c.nodes[k][2] = K[i].inCol) => (all[n].at[1] = 1 /\ all[n].d = RIGHT)
                  /\ (Count(c, K[i].outCol, {1, 2}) = 0 /\ c.nodes[k][3] = K[i].outCol /\ c.nodes[k][4] = K[i].outCol) => (all[n].at[1] = c.w - 2 /\ all[n].d = RIGHT)
  IN IF n > Len(all) THEN EdgeOK(i, all, m)
     ELSE \E k \in {j \in left : \A x \in left : x < j => c.nodes[x] # c.nodes[j]} : mayBe(k) /\ \E f \in Fit(c.nodes[k], all[n]) :
            Consistent(col \cup f) /\ MatchesAtEdge(i, all, n + 1, left \ {k}, col \cup f, m \o <<k>>)
EndsOK(s, i) == \E a \in InPos(i), b \in OutPos(i) : AlignedOK(i, a, b) /\ \A n \in 1..Len(s) : EndOK(i, a, b, n, s[n])
Clause(ok, name) == IF ok THEN {} ELSE {name}
Verdict(s, i) ==
  LET c == Cfgs[i]
      broken == BrokenRules(s, c)
  IN IF broken # {} THEN broken
     ELSE Clause(EndsOK(s, i), "ends")
          \cup Clause(\A n \in 1..Len(s) : s[n] \in Range(c.allowed[((n - 1) % Len(c.allowed)) + 1]), "partial-layout")
          \cup Clause(Crossings(s, c) = <<K[i].nIn, K[i].nOut>>, "inputs-and-outputs")
          \cup Clause(Len(Heads(s, c)) = Len(c.nodes), "splitter-count")
          \cup Clause(/\ Len(Heads(s, c)) = Len(c.nodes) /\ Consistent(EndColours(s, i))
                      /\ Matches(AllPorts(s, c), c.nodes, 1..Len(c.nodes), EndColours(s, i)), "network")
          \cup Clause(c.edge => (/\ Len(Heads(s, c)) = Len(c.nodes) /\ Consistent(EndColours(s, i))
                                 /\ MatchesAtEdge(i, AllPorts(s, c), 1, 1..Len(c.nodes), EndColours(s, i), <<>>)), "splitters-at-edge")
          \cup Clause(~Contains(BadOf[Shape(c)], s, c), "excluded-pattern")
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE l
JInit == l \in 1..Len(Cases) /\ ci = Cases[l][1] /\ g = Cases[l][2] /\ io = 0 /\ oo = 0
JNext == UNCHANGED <<ci, g, io, oo, l>>
JEmit == PrintT("@J " \o ToJson(<<l, Verdict(g, ci)>>))
=============================================================================
