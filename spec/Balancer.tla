------------------------------ MODULE Balancer ------------------------------
(* Belt balancers that realise a splitter network, with the options of the   *)
(* balancer generator.  A configuration has, besides the fields of Layout,   *)
(*    nodes     the network: a sequence of <<in, in, out, out>> colours,      *)
(*              -1 for an unused side                                         *)
(*    ends      0 opposite sides, 90 bottom, 180 same side, -1 anywhere       *)
(*    useEnds   may the ends hold other tiles                                 *)
(*    aligned   must the shorter end lie within the span of the longer one   *)
(*    rules     pruning patterns that are excluded                            *)
(*    edge      must splitters on the inputs / outputs lie next to the ends  *)
EXTENDS Layout, Runs, Patterns

VARIABLES io, oo     \* position of the first input and of the first output

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Count(c, col, sides) == SumSeq([n \in 1..Len(c.nodes) |-> Cardinality({k \in sides : c.nodes[n][k] = col})])
Colours(c) == UNION {{c.nodes[n][k] : k \in 1..4} : n \in 1..Len(c.nodes)} \ {-1}
\* a colour's surplus: how often it is produced minus how often it is consumed
Surplus(c, col) == Count(c, col, {3, 4}) - Count(c, col, {1, 2})
InCol(c) == CHOOSE col \in Colours(c) : Surplus(c, col) < 0
OutCol(c) == CHOOSE col \in Colours(c) : Surplus(c, col) > 0
\* the constants of each configuration
K == [i \in 1..NC |-> LET c == Cfgs[i] IN
        [inCol |-> InCol(c), outCol |-> OutCol(c), nIn |-> 0 - Surplus(c, InCol(c)), nOut |-> Surplus(c, OutCol(c))]]
\* instances of the excluded patterns, shared by the configurations of the same shape
Shape(c) == <<c.w, c.h, c.L, c.rules>>
BadOf == LET shapes == {Shape(Cfgs[i]) : i \in 1..NC}
         IN [sh \in shapes |-> LET c == Cfgs[CHOOSE i \in 1..NC : Shape(Cfgs[i]) = sh] IN UNION {Instances(c.rules[r], c) : r \in 1..Len(c.rules)}]

OutSide(i) == IF Cfgs[i].ends = 90 THEN Cfgs[i].w ELSE Cfgs[i].h      \* length of the output end
InPos(i) == IF Cfgs[i].ends = -1 THEN {0} ELSE IF K[i].nIn > Cfgs[i].h THEN {} ELSE 0..(Cfgs[i].h - K[i].nIn)
OutPos(i) == IF Cfgs[i].ends = -1 THEN {0} ELSE IF K[i].nOut > OutSide(i) THEN {} ELSE 0..(OutSide(i) - K[i].nOut)
AlignedOK(i, a, b) ==
  Cfgs[i].aligned => IF K[i].nIn >= K[i].nOut THEN a <= b /\ b + K[i].nOut <= a + K[i].nIn
                     ELSE b <= a /\ a + K[i].nIn <= b + K[i].nOut

\* ---- rules about the ends for tile t in cell n -------------------------------
EndOK(i, a, b, n, t) ==
  LET c == Cfgs[i]
      x == (n - 1) % c.w
      y == (n - 1) \div c.w
      crossIn == T[t].i # NONE /\ Step(c, <<x, y>>, Rev(T[t].i), 1) = OFF
      crossOut == T[t].o # NONE /\ Step(c, <<x, y>>, T[t].o, 1) = OFF
      onIn == x = 0
      isIn == onIn /\ y >= a /\ y < a + K[i].nIn
      od == IF c.ends = 0 THEN RIGHT ELSE IF c.ends = 90 THEN DOWN ELSE LEFT
      onOut == IF c.ends = 0 THEN x = c.w - 1 ELSE IF c.ends = 90 THEN y = c.h - 1 ELSE x = 0
      ox == IF c.ends = 90 THEN x ELSE y
      isOut == onOut /\ ox >= b /\ ox < b + K[i].nOut
  IN IF c.ends = -1 THEN TRUE
     ELSE /\ crossIn <=> isIn
          /\ crossOut <=> isOut
          /\ isIn => In(t, RIGHT) /\ (K[i].nIn < c.h => IsBelt(t))
          /\ isOut => Out(t, od) /\ IsBelt(t)
          /\ (onIn /\ ~isIn /\ ~c.useEnds /\ c.ends # 180) => t = 0
          /\ (onOut /\ ~isOut /\ ~c.useEnds /\ c.ends # 180) => t = 0

BInit == \E i \in 1..NC : \E a \in InPos(i), b \in OutPos(i) :
           AlignedOK(i, a, b) /\ ci = i /\ io = a /\ oo = b /\ g = <<>>
HeadCount(s) == Cardinality({n \in 1..Len(s) : IsHead[s[n]]})
TailCount(s) == Cardinality({n \in 1..Len(s) : IsSplit(s[n]) /\ ~IsHead[s[n]]})
Crossings(s, c) == <<Cardinality({n \in 1..Len(s) : T[s[n]].i # NONE /\ Step(c, <<(n - 1) % c.w, (n - 1) \div c.w>>, Rev(T[s[n]].i), 1) = OFF}),
                     Cardinality({n \in 1..Len(s) : T[s[n]].o # NONE /\ Step(c, <<(n - 1) % c.w, (n - 1) \div c.w>>, T[s[n]].o, 1) = OFF})>>
BPlace(t) == /\ EndOK(ci, io, oo, Len(g) + 1, t)
             /\ IsHead[t] => HeadCount(g) < Len(Cfgs[ci].nodes)
             /\ (IsSplit(t) /\ ~IsHead[t]) => TailCount(g) < Len(Cfgs[ci].nodes)
             /\ Cfgs[ci].ends = -1 => LET k == Crossings(Append(g, t), Cfgs[ci]) IN k[1] <= K[ci].nIn /\ k[2] <= K[ci].nOut
             /\ Place(t) /\ UNCHANGED <<io, oo>>
BNext == Len(g) < Cfgs[ci].w * Cfgs[ci].h /\ \E t \in Candidates(ci, g) : BPlace(t)

\* ---- does the layout realise the network ---------------------------------------
\* col is a set of <<run, colour>>; no run gets two colours
Consistent(S) == \A e, f \in S : e[1] = f[1] => e[2] = f[2]
\* the ways node nd can sit on the splitter with ports q: sets of <<run, colour>>, {} if an unused side does not fit
Fit(nd, q) ==
  LET side(r0, r1, a, b) ==
        IF (r0 = NoRun) = (a = -1) /\ (r1 = NoRun) = (b = -1)
          THEN {(IF a = -1 THEN {} ELSE {<<r0, a>>}) \cup (IF b = -1 THEN {} ELSE {<<r1, b>>})} ELSE {}
      both(r, a, b) == side(r[1], r[2], a, b) \cup side(r[1], r[2], b, a)
  IN {x \cup y : x \in both(q.ins, nd[1], nd[2]), y \in both(q.outs, nd[3], nd[4])}
\* assignments of nodes (indices) to splitters that give a consistent colouring extending col
RECURSIVE Match(_, _, _, _)
Match(ps, nodes, left, col) ==
  IF ps = <<>> THEN {<<>>}
  ELSE UNION {UNION {IF Consistent(col \cup f) THEN {<<k>> \o r : r \in Match(Tail(ps), nodes, left \ {k}, col \cup f)} ELSE {}
                      : f \in Fit(nodes[k], Head(ps))}
              : k \in {j \in left : \A i \in left : i < j => nodes[i] # nodes[j]}}     \* equal nodes are interchangeable
EndColours(s, i) ==
  LET c == Cfgs[i] IN {<<RunOf(s, c, p), K[i].inCol>> : p \in Enters(s, c)} \cup {<<RunOf(s, c, p), K[i].outCol>> : p \in Leaves(s, c)}
\* with the edge option, nodes fed only by the inputs lie next to the input end, facing away from it, and nodes
\* feeding only the outputs next to the output end
EdgeOK(i, ps, m) ==
  LET c == Cfgs[i]
      ic == K[i].inCol
      oc == K[i].outCol
      inNode(nd) == nd[1] = ic /\ nd[2] = ic
      outNode(nd) == nd[3] = oc /\ nd[4] = oc
      reIn == Count(c, ic, {3, 4})
      reOut == Count(c, oc, {1, 2})
      at(x, P(_)) == {n \in 1..Len(ps) : P(c.nodes[m[n]]) /\ ps[n].at[1] = x}
      all(P(_)) == {n \in 1..Len(ps) : P(c.nodes[m[n]])}
      facing(S) == \A n \in S : ps[n].d = RIGHT
  IN /\ IF reIn = 0 THEN at(1, inNode) = all(inNode) /\ facing(all(inNode))
        ELSE Cardinality(at(1, inNode)) >= Cardinality(all(inNode)) - reIn
     /\ IF reOut = 0 THEN at(c.w - 2, outNode) = all(outNode) /\ facing(all(outNode))
        ELSE Cardinality(at(c.w - 2, outNode)) >= Cardinality(all(outNode)) - reOut
Realises(s, i) ==
  LET c == Cfgs[i]
      ps == AllPorts(s, c)
      ends == EndColours(s, i)
  IN /\ Len(ps) = Len(c.nodes)
     /\ Crossings(s, c) = <<K[i].nIn, K[i].nOut>>
     /\ Consistent(ends)
     /\ LET ms == Match(ps, c.nodes, 1..Len(c.nodes), ends)
        IN IF c.edge THEN \E m \in ms : EdgeOK(i, ps, m) ELSE ms # {}
Wanted(s, i) == Realises(s, i) /\ ~Contains(BadOf[Shape(Cfgs[i])], s, Cfgs[i])

BSpec == BInit /\ [][BNext]_<<ci, g, io, oo>>
BEmit == (Complete /\ Wanted(g, ci)) => PrintT("@L " \o ToJson(<<ci, g>>))
=============================================================================
