----------------------------- MODULE LayoutSelf -----------------------------
(* Self check of Layout: on tiny grids the incremental construction reaches  *)
(* exactly the layouts the declarative rules accept.                         *)
EXTENDS Layout
RECURSIVE Build(_, _)
Build(i, n) == IF n = 0 THEN {<<>>}
               ELSE {Append(s, t) : s \in Build(i, n - 1), t \in Range(Cfgs[i].allowed[((n - 1) % Len(Cfgs[i].allowed)) + 1])}
RECURSIVE Reach(_, _)
Reach(i, n) == IF n = 0 THEN {<<>>}
               ELSE UNION {{Append(s, t) : t \in {u \in Candidates(i, s) : DynamicOK(s, u, Cfgs[i])}} : s \in Reach(i, n - 1)}
SelfInit == ci \in 1..NC /\ g = <<>>
SelfNext == UNCHANGED <<ci, g>>
SelfOK == LET N == Cfgs[ci].w * Cfgs[ci].h IN {s \in Build(ci, N) : Valid(s, Cfgs[ci])} = Reach(ci, N)
=============================================================================
