-------------------------------- MODULE Book --------------------------------
(* Lines of blueprint strings, packed into books and unpacked again.  A line  *)
(* is a blueprint [id, ix] or a book [label, of, ix] with of a sequence of    *)
(* lines; ix is the position it was last numbered with, -1 if never.  label 0 *)
(* is "no label".                                                             *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CASES)       \* [kinds, most, depth, labels]
VARIABLES lines, ops
vars == <<lines, ops>>
Blueprint(k) == [id |-> k, ix |-> -1]
IsBook(v) == "of" \in DOMAIN v
Numbered(s) == [k \in 1..Len(s) |-> [s[k] EXCEPT !.ix = k - 1]]
Seqs(n) == UNION {[1..k -> 1..Conf.kinds] : k \in 0..n}
Init == \E s \in Seqs(Conf.most) : lines = [k \in 1..Len(s) |-> Blueprint(s[k])] /\ ops = <<>>
Did(op) == ops' = Append(ops, op)
Pack(label) == lines' = <<[label |-> label, of |-> Numbered(lines), ix |-> -1]>> /\ Did(<<"pack", label>>)
Unpack == Len(lines) = 1 /\ IsBook(lines[1]) /\ lines' = lines[1].of /\ Did(<<"unpack", 0>>)
\* the user rearranges the lines between commands
Reverse == Len(lines) > 1 /\ lines' = [k \in 1..Len(lines) |-> lines[Len(lines) + 1 - k]] /\ Did(<<"reverse", 0>>)
Repeat == Len(lines) \in 1..2 /\ lines' = lines \o lines /\ Did(<<"repeat", 0>>)
Next == Len(ops) < Conf.depth /\ (Unpack \/ Reverse \/ Repeat \/ \E b \in 0..(Conf.labels - 1) : Pack(b))
Emit == PrintT("@K " \o ToJson(<<ops, lines>>))

\* ---- properties ----------------------------------------------------------------
RECURSIVE Bare(_)
Bare(v) == IF IsBook(v) THEN [label |-> v.label, of |-> [k \in 1..Len(v.of) |-> Bare(v.of[k])]] ELSE [id |-> v.id]
\* unpacking what was packed gives the same lines, numbered by their position
PackUnpack == LET b == Numbered(lines) IN
  /\ Len(b) = Len(lines)
  /\ \A k \in 1..Len(b) : Bare(b[k]) = Bare(lines[k]) /\ b[k].ix = k - 1
Positions == \A k \in 1..Len(lines) : IsBook(lines[k]) => \A j \in 1..Len(lines[k].of) : lines[k].of[j].ix = j - 1
=============================================================================
