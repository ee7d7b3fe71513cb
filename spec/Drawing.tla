------------------------------ MODULE Drawing ------------------------------
(* The drawing of a splitter network: boxes without text are the splitters,  *)
(* a number is the belts of that colour where more than two things meet, an  *)
(* arrow with a number is the belts of that colour from one splitter to      *)
(* another, and two hidden places are where belts come from and go to.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

\* a network: a sequence of <<in1, in2, out1, out2>> with -1 for an unused side
Ins(n) == {n[1], n[2]} \ {-1}
Outs(n) == {n[3], n[4]} \ {-1}
Colours(net) == UNION {Ins(net[k]) \cup Outs(net[k]) : k \in DOMAIN net}
RECURSIVE Sum(_, _, _)
Sum(net, c, k) == IF k > Len(net) THEN 0
                  ELSE (IF net[k][1] = c THEN 1 ELSE 0) + (IF net[k][2] = c THEN 1 ELSE 0) - (IF net[k][3] = c THEN 1 ELSE 0) - (IF net[k][4] = c THEN 1 ELSE 0) + Sum(net, c, k + 1)
Wanted(net) == {c \in Colours(net) : Sum(net, c, 1) > 0}     \* more sides take it than give it: it comes from outside
Spare(net) == {c \in Colours(net) : Sum(net, c, 1) < 0}
Proper(net) == Cardinality(Wanted(net)) = 1 /\ Cardinality(Spare(net)) = 1

\* what a drawing has to say: from, colour, to; 0 is outside
Belts(net) ==
  {e \in (DOMAIN net) \X Colours(net) \X (DOMAIN net) : e[2] \in Outs(net[e[1]]) /\ e[2] \in Ins(net[e[3]])}
  \cup {e \in {0} \X Wanted(net) \X (DOMAIN net) : e[2] \in Ins(net[e[3]])}
  \cup {e \in (DOMAIN net) \X Spare(net) \X {0} : e[2] \in Outs(net[e[1]])}

\* a graph: kinds, a sequence of -2 (splitter), -1 (outside) or the number written there; edges, a set of <<from, to, number or -1>>
Splitters(g) == {k \in DOMAIN g.kinds : g.kinds[k] = -2}
Outside(g) == {k \in DOMAIN g.kinds : g.kinds[k] = -1}
Spots(g) == DOMAIN g.kinds \ (Splitters(g) \cup Outside(g))
Number(g, k) == g.kinds[k]
EdgeSet(g) == g.edges
\* pos maps the splitters of the drawing to the positions of the network
Place(g, pos, k) == IF k \in Splitters(g) THEN pos[k] ELSE 0
Drawn(g, pos) ==
  {<<Place(g, pos, e[1]), e[3], Place(g, pos, e[2])>> : e \in {x \in EdgeSet(g) : x[1] \notin Spots(g) /\ x[2] \notin Spots(g)}}
  \cup UNION {{<<Place(g, pos, e[1]), Number(g, s), Place(g, pos, f[2])>> : e \in {x \in EdgeSet(g) : x[2] = s}, f \in {x \in EdgeSet(g) : x[1] = s}} : s \in Spots(g)}
\* in a spot with only one direction nothing would be said
Alone(g) == {s \in Spots(g) : (\A e \in EdgeSet(g) : e[2] # s) \/ (\A e \in EdgeSet(g) : e[1] # s)}
Clause(ok, name) == IF ok THEN {} ELSE {name}
Judged(g, net, pos) ==
  Clause(\A e \in EdgeSet(g) : ~(e[1] \in Spots(g) /\ e[2] \in Spots(g)), "joined-numbers")
  \cup Clause(\A e \in EdgeSet(g) : (e[1] \in Spots(g) => e[3] \in {-1, Number(g, e[1])}) /\ (e[2] \in Spots(g) => e[3] \in {-1, Number(g, e[2])}), "misnumbered")
  \cup Clause(Alone(g) = {}, "loose-end")
  \cup Clause(Belts(net) \subseteq Drawn(g, pos), "missing-belt")
  \cup Clause(Drawn(g, pos) \subseteq Belts(net), "extra-belt")
Perms(g, net) == {p \in [Splitters(g) -> DOMAIN net] : \A a, b \in Splitters(g) : a # b => p[a] # p[b]}
\* a small drawing may use any correspondence, a larger one that of the case (by name)
Verdict(d) ==
  LET c == [d EXCEPT !.graph = [kinds |-> d.graph.kinds, edges |-> {d.graph.edges[k] : k \in DOMAIN d.graph.edges}]] IN
  IF Cardinality(Splitters(c.graph)) # Len(c.net) THEN {"number-of-splitters"}
  ELSE IF Len(c.net) > 3 THEN Judged(c.graph, c.net, [k \in Splitters(c.graph) |-> c.pos[k]])
  ELSE LET all == {Judged(c.graph, c.net, p) : p \in Perms(c.graph, c.net)} IN IF {} \in all THEN {} ELSE CHOOSE x \in all : TRUE

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES at, built
JInit == at = 1 /\ built = <<>>
JNext == at <= Len(Cases) /\ at' = at + 1 /\ UNCHANGED built
JEmit == at <= Len(Cases) => LET v == Verdict(Cases[at]) IN PrintT("@V " \o ToJson(<<at, v>>))

\* ---- all small networks -------------------------------------------------------
Conf == JsonDeserialize(IOEnv.CASES)      \* [nodes, colours]
Side == {<<a, b>> \in (-1..(Conf.colours - 1)) \X (-1..(Conf.colours - 1)) : a <= b}
Node == {i \o o : i \in Side, o \in Side} 
NInit == built = <<>> /\ at = 0
NNext == Len(built) < Conf.nodes /\ \E n \in Node : built' = Append(built, n) /\ UNCHANGED at
NEmit == (built # <<>> /\ Proper(built)) => PrintT("@N " \o ToJson(built))
\* the drawing made of a spot for every colour says the right thing
Model(m) ==
  LET n == Len(m)
      top == CHOOSE c \in Colours(m) : \A d \in Colours(m) : d <= c
      spot(c) == n + 1 + c
      cs == Colours(m)
  IN [kinds |-> [x \in 1..(n + top + 3) |-> IF x <= n THEN -2 ELSE IF x <= n + top + 1 THEN x - n - 1 ELSE -1],
      edges |-> {e \in {<<i, spot(c), -1>> : i \in 1..n, c \in cs} : e[2] - n - 1 \in Outs(m[e[1]])}
           \cup {e \in {<<spot(c), i, -1>> : i \in 1..n, c \in cs} : e[1] - n - 1 \in Ins(m[e[2]])}
           \cup {<<n + top + 2, spot(c), -1>> : c \in Wanted(m)} \cup {<<spot(c), n + top + 3, -1>> : c \in Spare(m)}]
Sayable == (built # <<>> /\ Proper(built)) => LET g == Model(built) IN Judged(g, built, [x \in 1..Len(built) |-> x]) \subseteq {"loose-end"}
=============================================================================
