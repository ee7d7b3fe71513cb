-------------------------------- MODULE Runs --------------------------------
(* Following items through a complete, valid layout without wrapping axes.   *)
(* A run is a maximal chain of belts and undergrounds; it starts where items *)
(* come out of a splitter or into the layout, and ends at a splitter or at   *)
(* the edge.  It is named by the cell it starts in; Loop names closed loops. *)
EXTENDS BeltRules

Loop == <<-2, -2>>
Behind(c, p, d) == Step(c, p, Rev(d), 1)
\* the cell items come from: OFF when they come from outside or from a splitter, or when there is no input
Upstream(g, c, p) ==
  LET t == At(g, c, p) IN
  IF T[t].k = UGOUT THEN LET k == NextEnd(g, c, p, Rev(Dir(t))) IN IF k = 0 THEN OFF ELSE Step(c, p, Rev(Dir(t)), k)
  ELSE IF T[t].i = NONE THEN OFF
  ELSE LET q == Behind(c, p, T[t].i) IN IF q = OFF THEN OFF ELSE IF IsSplit(At(g, c, q)) THEN OFF ELSE q
RECURSIVE StartFrom(_, _, _, _)
StartFrom(g, c, p, fuel) ==
  IF fuel = 0 THEN Loop ELSE LET q == Upstream(g, c, p) IN IF q = OFF THEN p ELSE StartFrom(g, c, q, fuel - 1)
RunOf(g, c, p) == StartFrom(g, c, p, c.w * c.h + 1)

\* the splitters, as their head cells, in reading order
RECURSIVE HeadSeq(_, _, _)
HeadSeq(g, c, n) == IF n > c.w * c.h THEN <<>>
                    ELSE (IF IsHead[g[n]] THEN <<<<(n - 1) % c.w, (n - 1) \div c.w>>>> ELSE <<>>) \o HeadSeq(g, c, n + 1)
Heads(g, c) == HeadSeq(g, c, 1)
\* the runs at the four sides of the splitter with head p; OFF for a side that is not connected
NoRun == OFF
Ports(g, c, p) ==
  LET d == SDir[At(g, c, p)]
      q == Step(c, p, Nxt(d), 1)
      i(s) == IF In(At(g, c, s), d) THEN RunOf(g, c, s) ELSE NoRun
      o(s) == IF Out(At(g, c, s), d) THEN (LET f == Step(c, s, d, 1) IN IF f = OFF THEN <<-3, d>> ELSE RunOf(g, c, f)) ELSE NoRun
  IN [at |-> p, d |-> d, ins |-> <<i(p), i(q)>>, outs |-> <<o(p), o(q)>>]
AllPorts(g, c) == LET h == Heads(g, c) IN [n \in 1..Len(h) |-> Ports(g, c, h[n])]

\* cells whose items come from / go to outside
Enters(g, c) == {p \in Cells(c) : LET t == At(g, c, p) IN T[t].i # NONE /\ Behind(c, p, T[t].i) = OFF}
Leaves(g, c) == {p \in Cells(c) : LET t == At(g, c, p) IN T[t].o # NONE /\ Step(c, p, T[t].o, 1) = OFF}
=============================================================================
