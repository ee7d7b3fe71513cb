------------------------------- MODULE Solver -------------------------------
(* Talking to a SAT solver.                                                   *)
(*                                                                            *)
(* A command solver writes lines and ends; the lines are                      *)
(*   "c"     a comment; "noise" anything else, "word" if it begins with an s  *)
(*   "sat" / "unsat" / "unknown" / "cut"   a status line, "cut" one broken off*)
(*   "va"    the first part of a solution's values, "vb" the rest with the    *)
(*           closing 0, "vall" all of them, "vbad" a line that is no value    *)
(*           line, "vpart" a value line broken off in the middle, "blank"     *)
(* The driver reads them and ends with a layout, no layout, or an error.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Model == JsonDeserialize(IOEnv.CFG)        \* [most: lines, ends: how a solver can end, calls: number of solves]
Ends == {Model.ends[k] : k \in 1..Len(Model.ends)}
Lines == {"c", "noise", "word", "sat", "unsat", "unknown", "cut", "va", "vb", "vall", "vbad", "vpart", "blank"}
Final == {"cut", "vpart"}                 \* a line broken off is the last
VARIABLES lines, drv, got, end
vars == <<lines, drv, got, end>>
\* drv: "status" waiting for a status line, "values" reading values, then "layout", "none" or "error"
\* got: the parts of the solution read so far
At(l) == {k \in 1..Len(lines) : lines[k] = l}
Init == lines = <<>> /\ drv = "status" /\ got = <<>> /\ end = "running"
Status(l) == CASE l = "sat" -> "values" [] l = "unsat" -> "none" [] l \in {"unknown", "cut"} -> "error" [] OTHER -> "status"
Value(l) == CASE l \in {"c"} -> "values"
              [] l = "va" -> "values"
              [] l \in {"vb", "vall"} -> "layout"
              [] OTHER -> "error"
Say(l) == /\ end = "running" /\ Len(lines) < Model.most /\ (lines # <<>> => lines[Len(lines)] \notin Final)
            /\ (l = "vb" => IF drv = "values" THEN got # <<>> ELSE At("va") # {})        \* values that are closed are complete
            /\ lines' = Append(lines, l) /\ UNCHANGED end
            /\ drv' = (IF drv = "status" THEN Status(l) ELSE IF drv = "values" THEN Value(l) ELSE drv)
            /\ got' = IF drv = "values" /\ l \in {"va", "vb", "vall"} THEN Append(got, l) ELSE got
Stop(e) == /\ end = "running" /\ end' = e /\ drv' = (IF drv \in {"status", "values"} THEN "error" ELSE drv) /\ UNCHANGED <<lines, got>>
Next == (\E l \in Lines : Say(l)) \/ (\E e \in Ends : Stop(e))
\* what a verdict rests on
OnlyFromAnswers == /\ drv = "layout" => At("sat") # {} /\ got[Len(got)] \in {"vb", "vall"}
                   /\ drv = "none" => At("unsat") # {}
NeverUndecided == end # "running" => drv \in {"layout", "none", "error"}
\* what the program may conclude: the driver's verdict; an error instead where the solver ended badly or contradicted itself or
\* wrote something that is no comment
Clean == /\ \A k \in 1..Len(lines) : lines[k] \in {"c", "sat", "unsat", "va", "vb", "vall"}
         /\ Cardinality(At("sat") \cup At("unsat")) = 1
         /\ (drv = "layout" => end \in {"0", "10"} /\ lines[Len(lines)] \in {"vb", "vall", "c"} /\ Cardinality(At("va")) + Cardinality(At("vall")) = 1 /\ Cardinality(At("vb")) <= 1)
         /\ (drv = "none" => end \in {"0", "20"} /\ At("va") \cup At("vb") \cup At("vall") = {})
         /\ (drv = "layout" => \A k \in At("va") \cup At("vb") \cup At("vall") : \A j \in At("sat") : j < k)
\* values before the status line are not forbidden by the format; a program may use them
Early == \E k \in 1..Len(lines), j \in At("sat") : k < j /\ lines[k] \in {"va", "vb", "vall"}
Blank == At("blank") # {} \/ At("noise") \cup At("word") # {}
Complete == At("vall") # {} \/ (At("va") # {} /\ At("vb") # {})
Allowed == (IF Clean THEN {drv} ELSE {drv, "error"}) \cup (IF (Early \/ Blank) /\ At("sat") # {} /\ At("unsat") = {} /\ Complete THEN {"layout"} ELSE {})
Emit == end # "running" => PrintT("@O " \o ToJson(<<lines, end, Allowed>>))

\* ---- a library solver: successive calls ----------------------------------------------
\* every call says "sat", "unsat", "stopped" or "odd"; asking for all layouts goes on until something else than "sat"
Calls == {"sat", "unsat", "stopped", "odd"}
LInit == lines = <<>> /\ drv = "calling" /\ got = <<>> /\ end = "running"
LCall(r) == /\ drv = "calling" /\ Len(lines) < Model.calls /\ lines' = Append(lines, r) /\ UNCHANGED end
            /\ got' = (IF r = "sat" THEN Append(got, Len(lines) + 1) ELSE got)
            /\ drv' = (CASE r = "sat" -> "calling" [] r = "unsat" -> "done" [] OTHER -> "error")
LNext == \E r \in Calls : LCall(r)
\* got: which answers are printed; the end is reached only by an explicit "unsat"
LEndsOnlyOnUnsat == drv = "done" => lines[Len(lines)] = "unsat" /\ \A k \in 1..(Len(lines) - 1) : lines[k] = "sat"
LEmit == drv \in {"done", "error"} => PrintT("@C " \o ToJson(<<lines, Len(got), drv>>))
=============================================================================
