---------------------------- MODULE PatternList ----------------------------
(* Prints every instance of every pattern named by the configurations in the *)
(* file CFG (fields w, h, wx, wy, L and rules), one per step.                *)
EXTENDS Patterns, TLC, Json, IOUtils, SequencesExt
VARIABLES ci, ri
Cfgs == JsonDeserialize(IOEnv.CFG)
PInit == ci \in 1..Len(Cfgs) /\ ri = 0
PNext == ri < Len(Cfgs[ci].rules) /\ ri' = ri + 1 /\ UNCHANGED ci
Emit == ri = 0 \/ LET c == Cfgs[ci]
                      I == Instances(c.rules[ri], c)
                      enc(i) == SetToSeq({<<e[1][2] * c.w + e[1][1], SetToSeq(e[2])>> : e \in i})
                  IN PrintT("@P " \o ToJson(<<ci, ri, [k \in 1..Cardinality(I) |-> enc(SetToSeq(I)[k])]>>))
=============================================================================
