------------------------------ MODULE Network ------------------------------
(* Splitter networks.  A node is <<in, in, out, out>> colours, -1 an unused   *)
(* side.  A wiring joins the node sides of equal colour one to one; what is   *)
(* left over of the input colour are the inputs, of the output colour the     *)
(* outputs.  The network balances when, however it is wired, every input is   *)
(* shared equally by all outputs; run backwards, every output draws equally   *)
(* from all inputs.                                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Nets == JsonDeserialize(IOEnv.CASES)          \* [nodes, a, b]: expected numbers of inputs and outputs
Ends(nodes, sides, col) == {<<n, k>> \in (1..Len(nodes)) \X sides : nodes[n][k] = col}
Needs(nodes, col) == Ends(nodes, {1, 2}, col)
Gives(nodes, col) == Ends(nodes, {3, 4}, col)
Cols(nodes) == UNION {{nodes[n][k] : k \in 1..4} : n \in 1..Len(nodes)} \ {-1}
Surplus(nodes, col) == Cardinality(Gives(nodes, col)) - Cardinality(Needs(nodes, col))
InCols(nodes) == {c \in Cols(nodes) : Surplus(nodes, c) < 0}
OutCols(nodes) == {c \in Cols(nodes) : Surplus(nodes, c) > 0}
InCount(nodes) == IF InCols(nodes) = {} THEN 0 ELSE 0 - Surplus(nodes, CHOOSE c \in InCols(nodes) : TRUE)
OutCount(nodes) == IF OutCols(nodes) = {} THEN 0 ELSE Surplus(nodes, CHOOSE c \in OutCols(nodes) : TRUE)
\* every node has something on either side
Shaped(nodes) == /\ \A n \in 1..Len(nodes) : {nodes[n][1], nodes[n][2]} # {-1} /\ {nodes[n][3], nodes[n][4]} # {-1}
                 /\ Cardinality(InCols(nodes)) = 1 /\ Cardinality(OutCols(nodes)) = 1

\* ---- all wirings -------------------------------------------------------------
\* a source is <<0, j>> (input j) or a producing side, a drain <<0, j>> (output j) or a consuming side
Sources(nodes) == {<<<<0, j>>, CHOOSE c \in InCols(nodes) : TRUE>> : j \in 1..InCount(nodes)}
                  \cup UNION {{<<p, c>> : p \in Gives(nodes, c)} : c \in Cols(nodes)}
Drains(nodes) == {<<<<0, j>>, CHOOSE c \in OutCols(nodes) : TRUE>> : j \in 1..OutCount(nodes)}
                 \cup UNION {{<<p, c>> : p \in Needs(nodes, c)} : c \in Cols(nodes)}
VARIABLES i, belts         \* belts: the pairs <<source, drain>> joined so far
SrcSeq == [n \in 1..Len(Nets) |-> SetToSeq(Sources(Nets[n].nodes))]
DrainSet == [n \in 1..Len(Nets) |-> Drains(Nets[n].nodes)]
WInit == i \in {n \in 1..Len(Nets) : Shaped(Nets[n].nodes)} /\ belts = <<>>
\* drains that are alike (the two sides of one node, the outputs) are joined in order
Alike(d, e) == d[2] = e[2] /\ d[1][1] = e[1][1]
Join == LET s == SrcSeq[i][Len(belts) + 1]
            used == {belts[k][2] : k \in 1..Len(belts)}
            free == {d \in DrainSet[i] : d[2] = s[2] /\ d[1] \notin used}
        IN \E d \in free : /\ \A e \in free : Alike(d, e) => d[1][2] <= e[1][2]
                           /\ belts' = Append(belts, <<s[1], d[1]>>) /\ UNCHANGED i
WNext == Len(belts) < Len(SrcSeq[i]) /\ Join
WEmit == Len(belts) = Len(SrcSeq[i]) => PrintT("@W " \o ToJson(<<i, belts>>))

\* ---- judging a wired network with its flows ------------------------------------
\* Judged: [nodes, belts, unit, flow] with flow[j][k] the amount on belt k, in 1/unit, when one belt enters at input j
Judged == JsonDeserialize(IOEnv.FLOWS)
VARIABLE l
Legal(c) ==
  LET srcs == {c.belts[k][1] : k \in 1..Len(c.belts)}
      drs == {c.belts[k][2] : k \in 1..Len(c.belts)}
      want(S) == {e[1] : e \in S}
      ic == CHOOSE col \in InCols(c.nodes) : TRUE
      oc == CHOOSE col \in OutCols(c.nodes) : TRUE
      colS(p) == IF p[1] = 0 THEN ic ELSE c.nodes[p[1]][p[2]]
      colD(p) == IF p[1] = 0 THEN oc ELSE c.nodes[p[1]][p[2]]
  IN /\ srcs = want(Sources(c.nodes)) /\ drs = want(Drains(c.nodes))
     /\ Cardinality(srcs) = Len(c.belts) /\ Cardinality(drs) = Len(c.belts)
     /\ \A k \in 1..Len(c.belts) : colS(c.belts[k][1]) = colD(c.belts[k][2])
\* into[n], from[n]: the belts into and out of node n; node 0 is the outside
SumOver(f, S) == FoldSet(LAMBDA k, acc : acc + f[k], 0, S)
\* each splitter shares what it gets evenly between its outputs
Conserves(c, f, into, from) == \A n \in 1..Len(c.nodes) : LET sum == SumOver(f, into[n]) IN \A k \in from[n] : Cardinality(from[n]) * f[k] = sum
Enters(c, f, j, from) == \A k \in from[0] : f[k] = IF c.belts[k][1][2] = j THEN c.unit ELSE 0
\* everything flows to an output, so the flows are determined
RECURSIVE Reaching(_, _, _)
Reaching(c, S, from) == LET R == S \cup {k \in 1..Len(c.belts) : c.belts[k][2][1] # 0 /\ from[c.belts[k][2][1]] \cap S # {}} IN IF R = S THEN S ELSE Reaching(c, R, from)
Equal(f, into) == \A k, m \in into[0] : f[k] = f[m]
Verdict(c) ==
  LET js == 1..InCount(c.nodes)
      into == [n \in 0..Len(c.nodes) |-> {k \in 1..Len(c.belts) : c.belts[k][2][1] = n}]
      from == [n \in 0..Len(c.nodes) |-> {k \in 1..Len(c.belts) : c.belts[k][1][1] = n}]
  IN (IF Legal(c) THEN {} ELSE {"illegal"}) \cup (IF Reaching(c, into[0], from) = 1..Len(c.belts) THEN {} ELSE {"stuck"})
     \cup (IF \A j \in js : Conserves(c, c.flow[j], into, from) /\ Enters(c, c.flow[j], j, from) THEN {} ELSE {"flow"})
     \cup (IF \A j \in js : Equal(c.flow[j], into) THEN {} ELSE {"unequal"})
JInit == l \in 1..Len(Judged) /\ i = 0 /\ belts = <<>>
JNext == UNCHANGED <<l, i, belts>>
JEmit == PrintT("@V " \o ToJson(<<l, Verdict(Judged[l])>>))
WInit0 == WInit /\ l = 0
WNext0 == WNext /\ UNCHANGED l
Counts == \A n \in 1..Len(Nets) : PrintT("@N " \o ToJson(<<n, Shaped(Nets[n].nodes), InCount(Nets[n].nodes), OutCount(Nets[n].nodes)>>))
CInit == i = 0 /\ belts = <<>> /\ l = 0 /\ Counts
CNext == UNCHANGED <<i, belts, l>>

\* ---- network files -----------------------------------------------------------------
\* a file is a sequence of lines: <<"node", k>> the k-th node of a stock, <<"skip", k>> a comment or blank line,
\* <<"bad", k>> anything else
Flip(nd) == <<nd[3], nd[4], nd[1], nd[2]>>
RECURSIVE Read(_, _)
Read(f, stock) == IF f = <<>> THEN <<>> ELSE (IF f[1][1] = "node" THEN <<stock[f[1][2]]>> ELSE <<>>) \o Read(Tail(f), stock)
Readable(f) == \A k \in 1..Len(f) : f[k][1] # "bad"
Flipped(s) == [k \in 1..Len(s) |-> Flip(s[Len(s) + 1 - k])]
FlipTwice == \A n \in 1..Len(Nets) : Flipped(Flipped(Nets[n].nodes)) = Nets[n].nodes
Stock == Nets[1].nodes
LineKinds == ({"node"} \X (1..Len(Stock))) \cup ({"skip"} \X (1..4)) \cup ({"bad"} \X (1..5))
VARIABLE file
FInit == file = <<>> /\ i = 0 /\ belts = <<>> /\ l = 0
FNext == Len(file) < Nets[1].most /\ (\E k \in LineKinds : file' = Append(file, k)) /\ UNCHANGED <<i, belts, l>>
FEmit == PrintT("@F " \o ToJson(<<file, Readable(file), IF Readable(file) THEN Flipped(Read(file, Stock)) ELSE <<>>>>))
WI == WInit0 /\ file = <<>>
WN == WNext0 /\ UNCHANGED file
JI == JInit /\ file = <<>>
JN == JNext /\ UNCHANGED file
CI == CInit /\ file = <<>>
CN == CNext /\ UNCHANGED file
=============================================================================
