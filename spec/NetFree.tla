------------------------------- MODULE NetFree -------------------------------
(* Balancers built without a given network.  What an input puts in is shared  *)
(* by every splitter equally between its outputs, and all outputs must receive*)
(* the same share of every input; with different numbers of inputs and outputs*)
(* the same must hold backwards.  A configuration has, besides the fields of  *)
(* Pruned,                                                                    *)
(*    nIn, nOut  numbers of inputs and outputs                                *)
(*    aligned    must the shorter end lie within the span of the longer one   *)
(* The generator counts flows in whole numbers; Amount gives its units.       *)
EXTENDS Pruned, Runs

VARIABLES io, oo     \* row of the first input and of the first output

Equal(c) == c.nIn = c.nOut
\* ---- ends -------------------------------------------------------------------
InPos(c) == IF c.nIn > c.h THEN {} ELSE 0..(c.h - c.nIn)
OutPos(c) == IF c.nOut > c.h THEN {} ELSE 0..(c.h - c.nOut)
AlignedOK(c, a, b) ==
  c.aligned => IF c.nIn >= c.nOut THEN a <= b /\ b + c.nOut <= a + c.nIn ELSE b <= a /\ a + c.nIn <= b + c.nOut
\* the outermost columns hold straight belts at the inputs and outputs and nothing else
EndOK(c, a, b, n, t) ==
  LET x == (n - 1) % c.w
      y == (n - 1) \div c.w
  IN /\ x = 0 => t = IF y >= a /\ y < a + c.nIn THEN 1 ELSE 0
     /\ x = c.w - 1 => t = IF y >= b /\ y < b + c.nOut THEN 1 ELSE 0
\* every side of a splitter is used, or, with different numbers of inputs and outputs, all but one
Used(t) == (IF T[t].i # NONE THEN 1 ELSE 0) + (IF T[t].o # NONE THEN 1 ELSE 0)
SplitOK(c, t) == Equal(c) /\ IsSplit(t) => Used(t) = 2
PairUsed(c, s) ==
  \A p \in Cells(c) : IsHead[At(s, c, p)] =>
    LET t == At(s, c, p)
        d == SDir[t]
        u == At(s, c, Step(c, p, Nxt(d), 1))
    IN Used(t) + Used(u) >= 3

FInit == \E i \in 1..NC : \E a \in InPos(Cfgs[i]), b \in OutPos(Cfgs[i]) : AlignedOK(Cfgs[i], a, b) /\ ci = i /\ io = a /\ oo = b /\ g = <<>>
FPlace(t) == LET n == Len(g) + 1
                 c == Cfgs[ci]
             IN /\ EndOK(c, io, oo, n, t) /\ SplitOK(c, t)
                /\ Place(t)
                /\ NoneEndsAt(Append(g, t), ci, n) = TRUE
                /\ UNCHANGED <<io, oo>>
FNext == Len(g) < N(Cfgs[ci]) /\ \E t \in Candidates(ci, g) : FPlace(t)

\* ---- the splitters and the runs between them -----------------------------------
RECURSIVE Closure(_, _)
Closure(S, E) == LET R == S \cup {e[2] : e \in {f \in E : f[1] \in S}} IN IF R = S THEN S ELSE Closure(R, E)
Conn(r) == {k \in 1..2 : r[k] # NoRun}
\* [ports, ins, outs, from, to]: the splitters, the runs that enter and leave, the runs reachable from the inputs, those reaching an output
Graph(s, c) ==
  LET ps == AllPorts(s, c)
      ins == {RunOf(s, c, p) : p \in Enters(s, c)}
      outs == {RunOf(s, c, p) : p \in Leaves(s, c)}
      E == UNION {{<<ps[n].ins[a], ps[n].outs[b]>> : a \in Conn(ps[n].ins), b \in Conn(ps[n].outs)} : n \in 1..Len(ps)}
  IN [ports |-> ps, ins |-> ins, outs |-> outs, from |-> Closure(ins, E), to |-> Closure(outs, {<<e[2], e[1]>> : e \in E})]
RunsOf(G) == G.ins \cup G.outs \cup UNION {{G.ports[n].ins[a] : a \in Conn(G.ports[n].ins)} \cup {G.ports[n].outs[b] : b \in Conn(G.ports[n].outs)} : n \in 1..Len(G.ports)}
\* what enters somewhere gets out, and, backwards, what is drawn comes from somewhere: then the flows are determined
Flowing(G) == G.from = G.to
\* splitters that belong neither to the inputs nor to the outputs
Idle(G) == {n \in 1..Len(G.ports) : LET q == G.ports[n] IN \A a \in Conn(q.ins) : q.ins[a] \notin G.from}
FullSplit(q) == Conn(q.ins) = {1, 2} /\ Conn(q.outs) = {1, 2}

\* ---- amounts -------------------------------------------------------------------
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a * b) \div Gcd(a, b)
Least(c) == IF c.nIn < c.nOut THEN c.nIn ELSE c.nOut
Greatest(c) == IF c.nIn < c.nOut THEN c.nOut ELSE c.nIn
\* the amount that counts as a full belt
Amount(c) == IF Equal(c) THEN c.nIn * (Pow2(c.nIn, 1) \div Gcd(Pow2(c.nIn, 1), c.nIn)) ELSE Lcm(Lcm(Lcm(Pow2(Least(c), 1), 2), c.nIn), c.nOut)
InAmount(c, n) == (Amount(c) * Least(c)) \div n         \* on each of n ends when all flow that fits is put in
Share(c) == Amount(c) \div Greatest(c)                  \* of each of them at each of the other ends
RECURSIVE TopBit(_, _)
TopBit(n, p) == IF 2 * p > n THEN p ELSE TopBit(n, 2 * p)

\* ---- flows: f[r] is a vector of amounts on run r, in 1/unit -----------------------
SumSide(f, r, j) == (IF r[1] # NoRun THEN f[r[1]][j] ELSE 0) + (IF r[2] # NoRun THEN f[r[2]][j] ELSE 0)
\* what splitters do, from side A to side B
Shares(G, f, n, fwd) ==
  \A m \in 1..Len(G.ports) :
    LET q == G.ports[m]
        A == IF fwd THEN q.ins ELSE q.outs
        B == IF fwd THEN q.outs ELSE q.ins
    IN \A j \in 1..n : LET sum == SumSide(f, A, j) IN \A b \in Conn(B) : Cardinality(Conn(B)) * f[B[b]][j] = sum
RowOf(p) == p[2]
\* the amounts at the end where the flow starts: row y carries the flow number y modulo the count
Starts(s, c, f, unit, n, amount, ends) == \A p \in ends : \A j \in 1..n : f[RunOf(s, c, p)][j] = (IF RowOf(p) % n = j - 1 THEN amount * unit ELSE 0)
Arrives(s, c, f, unit, n, share, ends) == \A p \in ends : \A j \in 1..n : f[RunOf(s, c, p)][j] = share * unit
Countable(f, unit, n, R) == \A r \in R : \A j \in 1..n : f[r][j] % unit = 0
Bounded(c, f, unit, n, R) ==
  \A r \in R : /\ \A j \in 1..n : f[r][j] <= Amount(c) * unit
               /\ ~Equal(c) => Cardinality({j \in 1..n : f[r][j] \div unit >= TopBit(Amount(c), 1)}) <= 1
\* a splitter that only passes on equal mixtures does nothing
Useful(c, G, f, b) ==
  \A m \in 1..Len(G.ports) : LET q == G.ports[m] IN
    FullSplit(q) => \/ \E j \in 1..(IF Equal(c) THEN c.nIn - 1 ELSE c.nIn) : f[q.ins[1]][j] # f[q.ins[2]][j]
                    \/ ~Equal(c) /\ \E j \in 1..c.nOut : b[q.ins[1]][j] # b[q.ins[2]][j]

Clause(ok, name) == IF ok THEN {} ELSE {name}
EndsOK(c, s) == \E a \in InPos(c), b \in OutPos(c) : AlignedOK(c, a, b) /\ \A n \in 1..N(c) : EndOK(c, a, b, n, s[n])
Structure(s, i) ==
  LET c == Cfgs[i]
      rules == BrokenRules(s, c)
  IN IF rules # {} THEN rules
     ELSE Clause(\A n \in 1..N(c) : s[n] \in Range(c.allowed[((n - 1) % Len(c.allowed)) + 1]), "partial-layout")
          \cup Clause(EndsOK(c, s), "ends")
          \cup Clause((\A n \in 1..N(c) : SplitOK(c, s[n])) /\ PairUsed(c, s), "splitter-sides")
          \cup Clause(NoPattern(s, i), "excluded-pattern")
\* the whole verdict; cert = [unit, runs, fwd, bwd] proposes the flows (checked here)
At2(seq, runs, r) == seq[CHOOSE k \in 1..Len(runs) : runs[k] = r]
Verdict(s, i, cert) ==
  LET c == Cfgs[i]
      st == Structure(s, i)
  IN IF st # {} THEN st
     ELSE LET G == Graph(s, c)
              R == RunsOf(G)
          IN IF ~Flowing(G) \/ (Equal(c) /\ Idle(G) # {}) THEN {"stuck"}
             ELSE IF \E n \in Idle(G) : FullSplit(G.ports[n]) THEN {"undecided"}
             ELSE IF {cert.runs[k] : k \in 1..Len(cert.runs)} # R THEN {"no-certificate"}
             ELSE LET f == [r \in R |-> At2(cert.fwd, cert.runs, r)]
                      b == [r \in R |-> At2(cert.bwd, cert.runs, r)]
                      en == Enters(s, c)
                      lv == Leaves(s, c)
                      u == cert.unit
                      ok == /\ Shares(G, f, c.nIn, TRUE) /\ Starts(s, c, f, u, c.nIn, InAmount(c, c.nIn), en)
                            /\ Equal(c) \/ (Shares(G, b, c.nOut, FALSE) /\ Starts(s, c, b, u, c.nOut, InAmount(c, c.nOut), lv))
                  IN IF ~ok THEN {"bad-certificate"}
                     ELSE Clause(Arrives(s, c, f, u, c.nIn, Share(c), lv), "unequal-outputs")
                          \cup Clause(Equal(c) \/ Arrives(s, c, b, u, c.nOut, Share(c), en), "unequal-inputs")
                          \cup Clause(Countable(f, u, c.nIn, R) /\ (Equal(c) \/ Countable(b, u, c.nOut, R)), "too-fine")
                          \cup Clause(Bounded(c, f, u, c.nIn, R) /\ (Equal(c) \/ Bounded(c, b, u, c.nOut, R)), "too-much")
                          \cup Clause(Useful(c, G, f, b), "useless-splitter")

\* ---- building ---------------------------------------------------------------------
FEmit == (Complete /\ PairUsed(Cfgs[ci], g) /\ Flowing(Graph(g, Cfgs[ci]))) => PrintT("@L " \o ToJson(<<ci, g>>))

\* ---- judging: CASES holds <<configuration, layout, certificate>> --------------------
VARIABLE l
Cases == JsonDeserialize(IOEnv.CASES)
JInit == l \in 1..Len(Cases) /\ ci = Cases[l][1] /\ g = Cases[l][2] /\ io = 0 /\ oo = 0
JNext == UNCHANGED <<ci, g, io, oo, l>>
JEmit == PrintT("@J " \o ToJson(<<l, Verdict(g, ci, Cases[l][3])>>))
WInit == FInit /\ l = 0
WNext == FNext /\ UNCHANGED l
=============================================================================
