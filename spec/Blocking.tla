------------------------------ MODULE Blocking ------------------------------
(* How layouts are listed with a solver: it is asked for a model, any model   *)
(* of the constraints that is not excluded yet; the layout in it is printed,  *)
(* and all models with the same values of the important variables are        *)
(* excluded.  Besides the layout a model has values of other variables.       *)
(* When the important variables determine the layout and no more, every       *)
(* behaviour is one of Stream, whatever models the solver picks; when they    *)
(* do not, some choice of models goes wrong (Necessary).                      *)
EXTENDS Naturals, FiniteSets

CONSTANTS Layouts, Others, Keys
VARIABLES models,      \* the models of the constraints: pairs of a layout and other values
          key,         \* the values of the important variables in each model
          all, excluded, printed, twice, stopped
vars == <<models, key, all, excluded, printed, twice, stopped>>

Valid == {m[1] : m \in models}
Exact == \A m, n \in models : key[m] = key[n] <=> m[1] = n[1]
Init == /\ models \in SUBSET (Layouts \X Others)
        /\ key \in [models -> Keys]
        /\ all \in BOOLEAN
        /\ excluded = {} /\ printed = {} /\ twice = FALSE /\ stopped = FALSE
Open == {m \in models : key[m] \notin excluded}
Ask(m) == /\ ~stopped /\ (all \/ printed = {})
          /\ excluded' = excluded \cup {key[m]}
          /\ printed' = printed \cup {m[1]}
          /\ twice' = (twice \/ m[1] \in printed)
          /\ UNCHANGED <<models, key, all, stopped>>
End == /\ ~stopped /\ (Open = {} \/ (~all /\ printed # {}))
       /\ stopped' = TRUE /\ UNCHANGED <<models, key, all, excluded, printed, twice>>
Next == (\E m \in Open : Ask(m)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ExactSpec == Init /\ Exact /\ [][Next]_vars /\ WF_vars(Next)

\* what Stream demands, written for a request that is part of the state
OnlyValid == printed \subseteq Valid
NeverTwice == ~twice
Finished == stopped => IF all THEN printed = Valid ELSE Cardinality(printed) = (IF Valid = {} THEN 0 ELSE 1)
Ends == <>stopped
Demand == INSTANCE Stream WITH Valid <- Valid, All <- all
Lists == Demand!SSpec
\* with keys that are not exact some schedule breaks a demand: counted by the states that show it
Shows == (twice \/ (stopped /\ all /\ printed # Valid)) => ~Exact
=============================================================================
