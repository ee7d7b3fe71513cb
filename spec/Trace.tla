------------------------------- MODULE Trace -------------------------------
(* Reading the splitter network out of a layout.  The file CASES holds pairs *)
(* <<configuration index, layout>>; for each the broken belt rules, the      *)
(* numbers of belts entering and leaving and the nodes are printed.  Colours:*)
(* 0 what enters, 1 what leaves, 2, 3, ... the runs between splitters, -1 an *)
(* unconnected side; -2 a belt that crosses the layout without a splitter.   *)
EXTENDS Runs, TLC, Json, IOUtils, SequencesExt

Cfgs == JsonDeserialize(IOEnv.CFG)
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE l
\* a splitter's output straight off the layout has no cell of its own
OffEdge(r) == r[1] = -3
EnterRuns(s, c) == {RunOf(s, c, p) : p \in Enters(s, c)}
LeaveRuns(s, c) == {RunOf(s, c, p) : p \in {q \in Leaves(s, c) : ~IsSplit(At(s, c, q))}}
Nodes(s, c) ==
  LET ps == AllPorts(s, c)
      en == EnterRuns(s, c)
      lv == LeaveRuns(s, c)
      all == UNION {{ps[n].ins[1], ps[n].ins[2], ps[n].outs[1], ps[n].outs[2]} : n \in 1..Len(ps)}
      inner == SetToSeq({r \in all : r # NoRun /\ ~OffEdge(r) /\ r \notin en /\ r \notin lv})
      col(r) == IF r = NoRun THEN -1 ELSE IF OffEdge(r) THEN 1
                ELSE IF r \in en THEN (IF r \in lv THEN -2 ELSE 0)
                ELSE IF r \in lv THEN 1 ELSE 1 + CHOOSE k \in 1..Len(inner) : inner[k] = r
  IN [n \in 1..Len(ps) |-> <<col(ps[n].ins[1]), col(ps[n].ins[2]), col(ps[n].outs[1]), col(ps[n].outs[2])>>]
Through(s, c) == Cardinality(EnterRuns(s, c) \cap LeaveRuns(s, c))
\* ---- what reading the layout back gives ----------------------------------------
\* The two outputs of a splitter are interchangeable: what leaves splitter k and reaches another one is named k.
\* 0 what enters, -2 what leaves, -1 an unconnected side.  A side right at the edge of the layout counts as
\* connected to the outside only on request (edge), because a splitter tile does not say what it is connected to.
Parsed(s, c, edge) ==
  LET heads == Heads(s, c)
      lv == LeaveRuns(s, c)
      mate(p) == Step(c, p, Nxt(SDir[At(s, c, p)]), 1)
      owner(q) == CHOOSE k \in 1..Len(heads) : heads[k] = q \/ mate(heads[k]) = q
      \* the splitter feeding the run that starts in cell r, 0 if it comes from outside
      source(r) == LET q == Behind(c, r, T[At(s, c, r)].i) IN IF q = OFF THEN 0 ELSE owner(q)
      inside(p, d) == IF Behind(c, p, d) = OFF THEN (IF edge THEN 0 ELSE -1)
                      ELSE IF In(At(s, c, p), d) THEN source(RunOf(s, c, p)) ELSE -1
      outside(k, p, d) == LET f == Step(c, p, d, 1) IN
                          IF f = OFF THEN (IF edge THEN -2 ELSE -1)
                          ELSE IF Out(At(s, c, p), d) THEN (IF IsSplit(At(s, c, f)) THEN k ELSE IF RunOf(s, c, f) \in lv THEN -2 ELSE k) ELSE -1
  IN [k \in 1..Len(heads) |-> LET p == heads[k]
                                  d == SDir[At(s, c, p)]
                              IN <<inside(p, d), inside(mate(p), d), outside(k, p, d), outside(k, mate(p), d)>>]
PEmit == LET c == Cfgs[Cases[l][1]]
             s == Cases[l][2]
             broken == BrokenRules(s, c)
         IN PrintT("@P " \o ToJson(IF broken # {} THEN <<l, broken, <<>>, <<>>>> ELSE <<l, broken, Parsed(s, c, FALSE), Parsed(s, c, TRUE)>>))
TInit == l \in 1..Len(Cases)
TNext == UNCHANGED l
TEmit == LET c == Cfgs[Cases[l][1]]
             s == Cases[l][2]
             broken == BrokenRules(s, c)
         IN PrintT("@T " \o ToJson(IF broken # {} THEN <<l, broken, 0, 0, 0, <<>>>>
                                   ELSE <<l, broken, Cardinality(Enters(s, c)), Cardinality(Leaves(s, c)), Through(s, c), Nodes(s, c)>>))
=============================================================================
