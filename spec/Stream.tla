------------------------------- MODULE Stream -------------------------------
(* What a generator may print.  The valid layouts of a request are printed   *)
(* one after another, none of them twice; asked for all of them it stops     *)
(* when nothing is left, otherwise after one.                                 *)
EXTENDS Naturals, FiniteSets

VARIABLES Valid,   \* the layouts that meet the request (never changes)
          All,     \* asked for all of them (never changes)
          printed, stopped

SInit == printed = {} /\ stopped = FALSE
More == IF All THEN printed # Valid ELSE printed = {} /\ Valid # {}
Say(x) == ~stopped /\ More /\ x \in Valid \ printed /\ printed' = printed \cup {x} /\ UNCHANGED stopped
Stop == ~stopped /\ ~More /\ stopped' = TRUE /\ UNCHANGED printed
SNext == (\E x \in Valid : Say(x)) \/ Stop
SSpec == SInit /\ [][SNext]_<<printed, stopped>> /\ WF_<<printed, stopped>>(SNext)
=============================================================================
