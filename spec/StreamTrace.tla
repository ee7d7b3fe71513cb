---------------------------- MODULE StreamTrace ----------------------------
(* What a generator printed, checked against Stream.  A case is              *)
(*   [all, valid (sequence of layouts), trace (sequence of layouts), ended]  *)
(* ended: it stopped by itself and reported success.                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, k, printed, stopped
Set(s) == {s[n] : n \in 1..Len(s)}
ValidOf == [c \in 1..Len(Cases) |-> Set(Cases[c].valid)]
S == INSTANCE Stream WITH Valid <- ValidOf[i], All <- Cases[i].all

TInit == i \in 1..Len(Cases) /\ k = 0 /\ S!SInit
TNext == LET c == Cases[i] IN
         \/ k < Len(c.trace) /\ S!Say(c.trace[k + 1]) /\ k' = k + 1 /\ UNCHANGED i
         \/ k = Len(c.trace) /\ c.ended /\ S!Stop /\ UNCHANGED <<i, k>>
\* how far each recording can be followed; why it cannot be followed any further
Can == LET c == Cases[i] IN IF k < Len(c.trace) THEN ENABLED S!Say(c.trace[k + 1]) ELSE c.ended /\ ENABLED S!Stop
Why == LET c == Cases[i] IN
       IF k < Len(c.trace)
       THEN IF c.trace[k + 1] \notin ValidOf[i] THEN "printed a layout that does not meet the request"
            ELSE IF c.trace[k + 1] \in printed THEN "printed a layout twice" ELSE "printed more layouts than asked for"
       ELSE IF ~c.ended THEN "did not end properly"
       ELSE IF c.all THEN "stopped although layouts were left" ELSE "printed no layout although there is one"
TEmit == stopped \/ Can \/ PrintT("@R " \o ToJson(<<i, k, Why>>))
TAccept == stopped => PrintT("@A " \o ToJson(i))
=============================================================================
