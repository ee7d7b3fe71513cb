------------------------------- MODULE Viewer -------------------------------
(* The viewer: layouts arrive on lines, keys step through them, and the one  *)
(* at hand is shown frame by frame, exported or saved as an animation.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

\* idx: the layout at hand (from 0), read: how many have been taken from the input, over: the input has ended,
\* saving: an animation was asked for, seen: the frames of the layout at hand that were drawn, t: ticks, done: asked to stop
Start == [idx |-> 0, read |-> 1, over |-> FALSE, saving |-> FALSE, seen |-> {}, t |-> 0, done |-> FALSE]
Advance(s, n) ==
  LET more == s.idx + 1 = s.read /\ ~s.over /\ s.read < n
      read == IF more THEN s.read + 1 ELSE s.read
      over == s.over \/ (s.idx + 1 = s.read /\ s.read = n)
  IN [s EXCEPT !.idx = (s.idx + 1) % read, !.read = read, !.over = over, !.seen = {}]
Back(s) == [s EXCEPT !.idx = (s.idx + s.read - 1) % s.read, !.seen = {}]
\* what a key does; in batch mode only closing the window counts
Press(s, key, n, batch) ==
  CASE key = "quit" -> [s EXCEPT !.done = TRUE]
    [] batch -> s
    [] key = "next" -> Advance(s, n)
    [] key = "prev" -> Back(s)
    [] key = "save" -> [s EXCEPT !.saving = TRUE]
    [] OTHER -> s
RECURSIVE Presses(_, _, _, _)
Presses(s, keys, n, batch) == IF keys = <<>> THEN s ELSE Presses(Press(s, Head(keys), n, batch), Tail(keys), n, batch)
\* the layouts whose blueprints the keys print, in order
RECURSIVE Exports(_, _, _, _)
Exports(s, keys, n, batch) ==
  IF keys = <<>> THEN <<>>
  ELSE (IF Head(keys) = "export" /\ ~batch THEN <<s.idx>> ELSE <<>>) \o Exports(Press(s, Head(keys), n, batch), Tail(keys), n, batch)
Phase(s, len) == (s.t \div 2) % len
Full(s, len) == s.seen = 0..(len - 1)
\* one picture; the animation is written once all its frames were drawn
Drawn(s, len) == [s EXCEPT !.seen = @ \cup {Phase(s, len)}]
Saves(s, len, batch) == (s.saving \/ batch) /\ Full(Drawn(s, len), len)
After(s, len, n, batch) ==
  LET d == [Drawn(s, len) EXCEPT !.t = @ + 1]
  IN IF Saves(s, len, batch)
     THEN IF batch THEN LET a == Advance([d EXCEPT !.saving = FALSE], n) IN [a EXCEPT !.done = @ \/ a.idx = 0]
          ELSE [d EXCEPT !.saving = FALSE]
     ELSE d

\* ---- the model: all histories of keys for n layouts of the given lengths ----------
CONSTANTS Lengths, Batch, Presslimit
VARIABLES s, saved, pressed, at, k, why
vars == <<s, saved, pressed, at, k, why>>
N == Len(Lengths)
L1 == <<2>>
L2 == <<1, 3>>
L3 == <<2, 1, 3>>
Length(x) == Lengths[x.idx + 1]
Wrapped(x) == [x EXCEPT !.t = @ % 12]
MInit == s = Start /\ saved = <<>> /\ pressed = 0 /\ at = 0 /\ k = 0 /\ why = ""
Key(key) == ~s.done /\ pressed < Presslimit /\ s' = Press(s, key, N, Batch) /\ pressed' = pressed + 1 /\ UNCHANGED <<saved, at, k, why>>
Tick == /\ ~s.done
        /\ s' = Wrapped(After(s, Length(s), N, Batch))
        /\ saved' = IF Saves(s, Length(s), Batch) THEN Append(saved, [idx |-> s.idx, frames |-> Drawn(s, Length(s)).seen]) ELSE saved
        /\ UNCHANGED <<pressed, at, k, why>>
MNext == Tick \/ \E key \in {"next", "prev", "save"} : Key(key)
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(Tick)
InRange == s.idx < s.read /\ s.read <= N
\* the end of the input is only noticed when all layouts were read
OverMeansAll == s.over => s.read = N
Complete == \A j \in 1..Len(saved) : saved[j].frames = 0..(Lengths[saved[j].idx + 1] - 1)
\* only the drawn frames of the layout at hand are kept
Own == s.seen \subseteq 0..(Length(s) - 1)
BackAndForth == s.read > s.idx + 1 => Back(Advance(s, N)).idx = s.idx
\* batch mode: every layout once, in order, then the end
InOrder == Batch => \A j \in 1..Len(saved) : saved[j].idx = j - 1
Everything == Batch => <>(s.done /\ Len(saved) = N)
\* what is asked for is saved unless the user keeps walking about
SavedInTheEnd == ~Batch => (s.saving ~> ~s.saving)

\* ---- recordings ------------------------------------------------------------------
Cases == JsonDeserialize(IOEnv.CASES)
Rec(c, i) == Cases[c].steps[i]
Lens(c) == Cases[c].lens
Bad(c, i, st) ==
  LET r == Rec(c, i)
      n == Len(Lens(c))
      b == Cases[c].batch
      p == Presses(st, r.keys, n, b)
      len == Lens(c)[p.idx + 1]
      saves == Saves(p, len, b)
      e == After(p, len, n, b)
  IN IF r.exports # Exports(st, r.keys, n, b) THEN "prints the wrong blueprints"
     ELSE IF r.size # Cases[c].sizes[p.idx + 1] THEN "has the wrong window size"
     ELSE IF r.title # p.idx THEN "shows the wrong number"
     ELSE IF Len(r.saved) # (IF saves THEN 1 ELSE 0) THEN "saves at the wrong time"
     ELSE IF saves /\ r.saved[1].name # Cases[c].names[p.idx + 1] THEN "saves under the wrong name"
     ELSE IF saves /\ (Len(r.saved[1].pics) # len \/ r.saved[1].size # Cases[c].sizes[p.idx + 1]) THEN "saves the wrong number or size of frames"
     ELSE IF r.read # e.read THEN "reads the input at the wrong time"
     ELSE IF r.over # e.over THEN "reports the end of the input wrongly"
     ELSE IF (i = Len(Cases[c].steps)) # e.done THEN "ends at the wrong time"
     ELSE ""
\* what the pictures of a step have to show: <<picture, layout, frame>>, judged by Picture.tla
Shows(c, i, st) ==
  LET r == Rec(c, i)
      p == Presses(st, r.keys, Len(Lens(c)), Cases[c].batch)
      len == Lens(c)[p.idx + 1]
  IN <<<<r.pic, p.idx, Phase(p, len)>>>> \o (IF Len(r.saved) = 1 THEN [j \in 1..Len(r.saved[1].pics) |-> <<r.saved[1].pics[j], p.idx, j - 1>>] ELSE <<>>)
Next1(c, i, st) == LET r == Rec(c, i)
                       p == Presses(st, r.keys, Len(Lens(c)), Cases[c].batch)
                   IN After(p, Lens(c)[p.idx + 1], Len(Lens(c)), Cases[c].batch)
TInit == at \in 1..Len(Cases) /\ k = 1 /\ s = Start /\ why = "" /\ saved = <<>> /\ pressed = 0
TNext == /\ k <= Len(Cases[at].steps) /\ why = ""
         /\ why' = Bad(at, k, s)
         /\ s' = Next1(at, k, s)
         /\ k' = k + 1
         /\ saved' = Shows(at, k, s)
         /\ UNCHANGED <<at, pressed>>
TEmit == /\ saved # <<>> => PrintT("@P " \o ToJson(<<at, saved>>))
         /\ why # "" => PrintT("@R " \o ToJson(<<at, k - 1, why>>))
         /\ (why = "" /\ k > Len(Cases[at].steps)) => PrintT("@A " \o ToJson(at))
=============================================================================
