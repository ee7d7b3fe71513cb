------------------------------ MODULE Optimal ------------------------------
(* The search for optimal balancers and its database.                         *)
(*                                                                            *)
(* A size is <<underground length, width, height>>.  If a balancer of one     *)
(* size exists, one exists for every size at least as large in all three, so  *)
(* an answer of the solver decides many sizes.  For every network the search  *)
(* asks for the smallest candidate of its objective that is not decided, and  *)
(* stops when the smallest candidate not ruled out is known to exist.         *)
(* Networks are searched at the same time; answers arrive in any order; the   *)
(* process can die at any point and is started again from the file.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt

Leq(a, b) == a[1] <= b[1] /\ a[2] <= b[2] /\ a[3] <= b[3]
\* ---- knowledge -----------------------------------------------------------------
\* facts: a set of <<size, exists>>
KnownTrue(F, s) == \E f \in F : f[2] /\ Leq(f[1], s)
KnownFalse(F, s) == \E f \in F : ~f[2] /\ Leq(s, f[1])
Unknown(F, s) == ~KnownTrue(F, s) /\ ~KnownFalse(F, s)
Exists(T, s) == \E m \in T : Leq(m, s)             \* T: the smallest sizes that exist

\* ---- objectives --------------------------------------------------------------------
\* a network is [splitters, height (at least this many rows), box (widths considered go up to this)]
Candidate(net, obj, s) ==
  LET interior == (s[2] - 2) * s[3]
  IN /\ s[2] >= 3 /\ interior >= 2 * net.splitters
     /\ IF obj = "length" THEN s[3] = net.height ELSE net.height <= s[3] /\ s[3] <= 2 * net.height
\* losses are compared as numbers: a length objective prefers less height, then less width
Loss(obj, s) == IF obj = "length" THEN s[3] * 1000 + s[2] ELSE (s[2] - 2) * s[3]
Candidates(net, obj, u) == {s \in {u} \X (3..net.box) \X (net.height..(2 * net.height)) : Candidate(net, obj, s)}
Open(net, obj, u, F) == {s \in Candidates(net, obj, u) : ~KnownFalse(F, s)}
Frontier(net, obj, u, F) == LET O == Open(net, obj, u, F) IN {s \in O : \A t \in O : Loss(obj, s) <= Loss(obj, t)}
MayAsk(net, obj, u, F) == {s \in Frontier(net, obj, u, F) : Unknown(F, s)}
MayStop(net, obj, u, F) == \E s \in Frontier(net, obj, u, F) : KnownTrue(F, s)
MustStop(net, obj, u, F) == MayStop(net, obj, u, F) /\ MayAsk(net, obj, u, F) = {}
Usable(S, u) == {s \in S : s[1] <= u}
Best(obj, S, u) == {s \in Usable(S, u) : \A t \in Usable(S, u) : Loss(obj, s) <= Loss(obj, t)}
\* the truth about the optimum
Optima(net, obj, u, T) == LET E == {s \in Candidates(net, obj, u) : Exists(T, s)} IN {Loss(obj, s) : s \in {t \in E : \A v \in E : Loss(obj, t) <= Loss(obj, v)}}

\* ---- the search as a state machine ---------------------------------------------------
Model == JsonDeserialize(IOEnv.CFG)     \* [nets, objectives, us, minima, facts, crashes]
Nets == Model.nets
N == 1..Len(Nets)
Us == {Model.us[k] : k \in 1..Len(Model.us)}
Objectives == {Model.objectives[k] : k \in 1..Len(Model.objectives)}
Box(n) == Us \X (3..Nets[n].box) \X (Nets[n].height..(2 * Nets[n].height))
Top(n) == <<Min(Us), Nets[n].box, Nets[n].height>>
VARIABLES truth, obj, u, mem, asked, stopped, file, tmp, writing, saved, died, log
vars == <<truth, obj, u, mem, asked, stopped, file, tmp, writing, saved, died, log>>
\* mem, file, saved: per network the facts and the sizes with a layout
None == <<>>
\* a history begins with any truth and any database agreeing with it, built up step by step while log is empty
Init == /\ truth = [n \in N |-> {Top(n)}] /\ obj = "none" /\ u = 0 /\ mem = [n \in N |-> [facts |-> {}, sols |-> {}]]
        /\ asked = [n \in N |-> None] /\ stopped = {} /\ file = mem /\ tmp = None /\ writing = FALSE /\ saved = mem /\ died = 0 /\ log = <<>>
Learn(m, s, yes) == [facts |-> m.facts \cup {<<s, yes>>}, sols |-> IF yes THEN m.sols \cup {s} ELSE m.sols]
Grow(n) == /\ log = <<>> /\ mem[n].facts = {} /\ Cardinality(truth[n]) <= Model.minima
           /\ \E s \in Box(n) : /\ (s[2] - 2) * s[3] >= 2 * Nets[n].splitters      \* a splitter takes two tiles
                                /\ \A m \in truth[n] : ~Leq(m, s) /\ (Leq(s, m) => m = Top(n))
                                /\ truth' = [truth EXCEPT ![n] = @ \cup {s}]
           /\ UNCHANGED <<obj, u, mem, asked, stopped, file, tmp, writing, saved, died, log>>
Store(n) == /\ log = <<>> /\ Cardinality(mem[n].facts) < Model.facts
            /\ \E s \in Box(n) : mem' = [mem EXCEPT ![n] = Learn(@, s, Exists(truth[n], s))]
            /\ file' = mem' /\ saved' = mem' /\ UNCHANGED <<truth, obj, u, asked, stopped, tmp, writing, died, log>>
Begin == /\ log = <<>> /\ obj' \in Objectives /\ u' \in Us /\ log' = <<<<0, obj', u', mem>>>>
         /\ UNCHANGED <<truth, mem, asked, stopped, file, tmp, writing, saved, died>>
Ask(n) == /\ log # <<>> /\ asked[n] = None /\ n \notin stopped /\ ~writing
          /\ \E s \in MayAsk(Nets[n], obj, u, mem[n].facts) : asked' = [asked EXCEPT ![n] = s]
          /\ UNCHANGED <<truth, obj, u, mem, stopped, file, tmp, writing, saved, died, log>>
Stop(n) == /\ log # <<>> /\ asked[n] = None /\ n \notin stopped /\ ~writing /\ MayStop(Nets[n], obj, u, mem[n].facts)
           /\ stopped' = stopped \cup {n}
           /\ UNCHANGED <<truth, obj, u, mem, asked, file, tmp, writing, saved, died, log>>
\* facts that follow from others may be dropped; here none are
Ready == \A n \in N : asked[n] # None \/ n \in stopped
Answer(n) == /\ asked[n] # None /\ ~writing /\ Ready
             /\ mem' = [mem EXCEPT ![n] = Learn(@, asked[n], Exists(truth[n], asked[n]))]
             /\ asked' = [asked EXCEPT ![n] = None] /\ writing' = TRUE /\ log' = Append(log, <<n>>)
             /\ UNCHANGED <<truth, obj, u, stopped, file, tmp, saved, died>>
\* saving: the new contents are written next to the file, then take its place
Write == writing /\ tmp = None /\ tmp' = <<"part">> /\ UNCHANGED <<truth, obj, u, mem, asked, stopped, file, writing, saved, died, log>>
Written == writing /\ tmp = <<"part">> /\ tmp' = <<"all", mem>> /\ UNCHANGED <<truth, obj, u, mem, asked, stopped, file, writing, saved, died, log>>
Replace == /\ writing /\ tmp # None /\ tmp[1] = "all"
           /\ file' = tmp[2] /\ tmp' = None /\ writing' = FALSE /\ saved' = tmp[2]
           /\ UNCHANGED <<truth, obj, u, mem, asked, stopped, died, log>>
\* the process dies (or a solver or a write fails) and is started again, possibly for another objective
Die == /\ log # <<>> /\ died < Model.crashes /\ died' = died + 1 /\ mem' = file /\ asked' = [n \in N |-> None] /\ stopped' = {} /\ writing' = FALSE
       /\ tmp' = None /\ obj' \in Objectives /\ u' \in Us /\ UNCHANGED <<truth, file, saved>> /\ log' = Append(log, <<0, obj', u'>>)
Next == Begin \/ (\E n \in N : Grow(n) \/ Store(n)) \/ (\E n \in N : Ask(n) \/ Stop(n) \/ Answer(n)) \/ Write \/ Written \/ Replace \/ Die
Done == stopped = N
Spec == Init /\ [][Next]_vars /\ WF_vars(\E n \in N : Ask(n)) /\ WF_vars(\E n \in N : Stop(n)) /\ WF_vars(\E n \in N : Answer(n)) /\ WF_vars(Begin) /\ WF_vars(Write \/ Written \/ Replace)

Knows(m, k, n) == \A s \in Box(n) : /\ (KnownTrue(k.facts, s) => KnownTrue(m.facts, s)) /\ (KnownFalse(k.facts, s) => KnownFalse(m.facts, s))
Sound == \A n \in N : \A f \in mem[n].facts : f[2] = Exists(truth[n], f[1])
NeverDecided == \A n \in N : asked[n] # None => Unknown(mem[n].facts, asked[n])
Durable == \A n \in N : Knows(file[n], saved[n], n) /\ saved[n].sols \subseteq file[n].sols
OptimalWhenStopped == \A n \in stopped : /\ Best(obj, mem[n].sols, u) # {}
                                          /\ \A s \in Best(obj, mem[n].sols, u) : Loss(obj, s) \in Optima(Nets[n], obj, u, truth[n])
\* whatever is asked, there is always something to do until every network is finished
Progress == Done \/ ENABLED Next
Terminates == <>Done
\* with no crash, a network is answered at most once for every candidate
Emit == (Done /\ died = Model.crashes) => PrintT("@S " \o ToJson(<<truth, log>>))

\* ---- traces of the real program --------------------------------------------------------
\* A trace: [nets, obj, u, truth (smallest sizes per network), events].  Events:
\*   [e |-> "ask", n, s], [e |-> "answer", n, s, yes], [e |-> "fail", n, s], [e |-> "end"], [e |-> "start", obj, u]
\*   [e |-> "file", db]   db: per network [facts, sols], sols as <<size, correct layout?>>; or "absent" or "broken"
\*   [e |-> "query", obj, u, imperfect, rows, level]   rows: the reported <<network, size>> in order
\*   [e |-> "table", rows]  rows: <<network, width, height, mark>>, mark a belt level, "no" or "unknown"
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, st
S2(x) == {x[k] : k \in 1..Len(x)}
Sz(x) == <<x[1], x[2], x[3]>>
Dbase(d) == [facts |-> {<<Sz(f[1]), f[2]>> : f \in S2(d.facts)}, sols |-> {Sz(x[1]) : x \in S2(d.sols)}, right |-> \A x \in S2(d.sols) : x[2]]
TN(t) == 1..Len(t.nets)
TBox(t, n) == S2(t.us) \X (3..t.nets[n].box) \X (t.nets[n].height..(2 * t.nets[n].height))
Empty(t) == [n \in TN(t) |-> [facts |-> {}, sols |-> {}]]
TTruth(t, n) == {Sz(x) : x \in S2(t.truth[n])}
SameKnowledge(t, n, a, b) == \A s \in TBox(t, n) : (KnownTrue(a, s) <=> KnownTrue(b, s)) /\ (KnownFalse(a, s) <=> KnownFalse(b, s))
MoreKnowledge(t, n, a, b) == \A s \in TBox(t, n) : (KnownTrue(a, s) => KnownTrue(b, s)) /\ (KnownFalse(a, s) => KnownFalse(b, s))
\* st: mem, file (knowledge on file), asked, obj, u
Level(x) == IF x <= 4 THEN "normal" ELSE IF x <= 6 THEN "fast" ELSE "express"
OrderLess(a, b) == \/ a.key[1] < b.key[1]
                   \/ a.key[1] = b.key[1] /\ a.key[2] < b.key[2]
                   \/ a.key[1] = b.key[1] /\ a.key[2] = b.key[2] /\ a.key[3] < b.key[3]
QueryRight(t, e) ==
  LET rows == e.rows
      m(n) == st.file[n]
      named == {rows[k][1] : k \in 1..Len(rows)}
      must(n) == /\ Usable(m(n).sols, e.u) # {} /\ (e.imperfect \/ MustStop(t.nets[n], e.obj, e.u, m(n).facts))
      may(n) == /\ Usable(m(n).sols, e.u) # {} /\ (e.imperfect \/ MayStop(t.nets[n], e.obj, e.u, m(n).facts))
  IN /\ \A k \in 1..Len(rows) : /\ may(rows[k][1]) /\ Sz(rows[k][2]) \in Best(e.obj, m(rows[k][1]).sols, e.u)
                                /\ rows[k][3] \in {Level(e.u), "none"}
     /\ \A n \in TN(t) : must(n) => n \in named
     /\ \A k \in 1..(Len(rows) - 1) : OrderLess(t.nets[rows[k][1]], t.nets[rows[k + 1][1]])
Levels == <<<<4, "normal">>, <<6, "fast">>, <<8, "express">>>>
MarkRight(F, w, h, mark) ==
  LET yes == {k \in 1..3 : KnownTrue(F, <<Levels[k][1], w, h>>)}
      no == {k \in 1..3 : KnownFalse(F, <<Levels[k][1], w, h>>)}
  IN IF yes # {} THEN mark = Levels[Min(yes)][2] ELSE IF no # {} THEN mark = "no" ELSE mark = "unknown"
Accept(t, e) ==
  CASE e.e = "ask" -> /\ st.asked[e.n] = None /\ Sz(e.s) \in MayAsk(t.nets[e.n], st.obj, st.u, st.mem[e.n].facts)
                      \* results are on file before the next question about the same network
                      /\ MoreKnowledge(t, e.n, st.mem[e.n].facts, st.file[e.n].facts) /\ st.mem[e.n].sols \subseteq st.file[e.n].sols
    [] e.e = "answer" -> st.asked[e.n] = Sz(e.s) /\ e.yes = Exists(TTruth(t, e.n), Sz(e.s))
    [] e.e = "fail" -> st.asked[e.n] = Sz(e.s)
    [] e.e = "file" -> IF "absent" \in DOMAIN e THEN \A n \in TN(t) : st.file[n].facts = {} /\ st.file[n].sols = {}
                       ELSE IF "broken" \in DOMAIN e THEN FALSE
                       ELSE \A n \in TN(t) : LET d == Dbase(e.db[n]) IN
                               /\ MoreKnowledge(t, n, st.file[n].facts, d.facts) /\ st.file[n].sols \subseteq d.sols      \* nothing lost
                               /\ MoreKnowledge(t, n, d.facts, st.mem[n].facts) /\ d.sols \subseteq st.mem[n].sols        \* nothing invented
                               /\ d.right /\ \A f \in d.facts : f[2] = Exists(TTruth(t, n), f[1])
    [] e.e = "start" -> TRUE
    [] e.e = "end" -> \A n \in TN(t) : /\ st.asked[n] = None /\ MayStop(t.nets[n], st.obj, st.u, st.mem[n].facts)
                                       /\ MoreKnowledge(t, n, st.mem[n].facts, st.file[n].facts) /\ st.mem[n].sols \subseteq st.file[n].sols
                                       /\ Best(st.obj, st.mem[n].sols, st.u) # {}
                                       /\ \A s \in Best(st.obj, st.mem[n].sols, st.u) : Loss(st.obj, s) \in Optima(t.nets[n], st.obj, st.u, TTruth(t, n))
    [] e.e = "query" -> QueryRight(t, e)
    [] e.e = "table" -> \A k \in 1..Len(e.rows) : LET r == e.rows[k] IN MarkRight(st.file[r[1]].facts, r[2], r[3], r[4])
    [] OTHER -> FALSE
Apply(t, e) ==
  CASE e.e = "ask" -> [st EXCEPT !.asked[e.n] = Sz(e.s)]
    [] e.e = "answer" -> [st EXCEPT !.asked[e.n] = None, !.mem[e.n] = Learn(@, Sz(e.s), e.yes)]
    [] e.e = "fail" -> [st EXCEPT !.asked[e.n] = None]
    [] e.e = "file" -> IF "db" \notin DOMAIN e THEN st ELSE [st EXCEPT !.file = [n \in TN(t) |-> [facts |-> Dbase(e.db[n]).facts, sols |-> Dbase(e.db[n]).sols]]]
    [] e.e = "start" -> [st EXCEPT !.mem = st.file, !.asked = [n \in TN(t) |-> None], !.obj = e.obj, !.u = e.u]
    [] OTHER -> st
Start(t) == LET m == [n \in TN(t) |-> [facts |-> Dbase(t.start[n]).facts, sols |-> Dbase(t.start[n]).sols]]
            IN [mem |-> m, file |-> m, asked |-> [n \in TN(t) |-> None], obj |-> t.obj, u |-> t.u]
Idle == truth = 0 /\ obj = 0 /\ u = 0 /\ mem = 0 /\ asked = 0 /\ stopped = 0 /\ file = 0 /\ tmp = 0 /\ writing = 0 /\ saved = 0 /\ died = 0 /\ log = 0
TInit == tr \in 1..Len(Traces) /\ pos = 0 /\ st = Start(Traces[tr]) /\ Idle
TNext == /\ pos < Len(Traces[tr].events) /\ Accept(Traces[tr], Traces[tr].events[pos + 1]) = TRUE
         /\ st' = Apply(Traces[tr], Traces[tr].events[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED <<tr, vars>>
TEmit == (pos = Len(Traces[tr].events) \/ ~Accept(Traces[tr], Traces[tr].events[pos + 1])) => PrintT("@A " \o ToJson(<<tr, pos, Len(Traces[tr].events)>>))
MInit == Init /\ tr = 0 /\ pos = 0 /\ st = 0
MNext == Next /\ UNCHANGED <<tr, pos, st>>
View == <<log = <<>>, truth, obj, u, mem, asked, stopped, file, tmp, writing, saved, died>>
MSpec == MInit /\ [][MNext]_<<vars, tr, pos, st>> /\ WF_vars((\E n \in N : Ask(n)) /\ UNCHANGED <<tr, pos, st>>) /\ WF_vars((\E n \in N : Stop(n)) /\ UNCHANGED <<tr, pos, st>>)
         /\ WF_vars((\E n \in N : Answer(n)) /\ UNCHANGED <<tr, pos, st>>) /\ WF_vars(Begin /\ UNCHANGED <<tr, pos, st>>) /\ WF_vars((Write \/ Written \/ Replace) /\ UNCHANGED <<tr, pos, st>>)
=============================================================================
