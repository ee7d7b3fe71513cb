----------------------------- MODULE Transform -----------------------------
(* Chains of conversions.  A behaviour takes a layout from the file CASES    *)
(* (fields w, h, s and depth) and applies up to `depth` operations; every    *)
(* state is printed, to be compared with what the tools print.               *)
EXTENDS Grids, BeltRules, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES n, g, ops
vars == <<n, g, ops>>
Turns == {"no_op", "rot_90", "rot_180", "rot_270", "flip_x", "flip_y"}
Do(op, x) == CASE op = "no_op" -> x
               [] op = "rot_90" -> Rot90(x)
               [] op = "rot_180" -> Rot180(x)
               [] op = "rot_270" -> Rot270(x)
               [] op = "flip_x" -> FlipX(x)
               [] op = "flip_y" -> FlipY(x)
               [] op = "text" -> x               \* to text and back
               [] op = "blueprint" -> Through(x)
Can(op, x) == CASE op = "text" -> \A k \in 1..Len(x.s) : x.s[k] <= 45
                [] op = "blueprint" -> Whole(x) /\ (\A k \in 1..Len(x.s) : x.s[k] <= 53) /\ \E k \in 1..Len(x.s) : x.s[k] \notin {0, FILLER}
                [] OTHER -> TRUE
Init == \E k \in 1..Len(Cases) : n = k /\ g = [w |-> Cases[k].w, h |-> Cases[k].h, s |-> [j \in 1..Len(Cases[k].s) |-> Canon(Cases[k].s[j])]] /\ ops = <<>>
Apply(op) == Can(op, g) /\ g' = Do(op, g) /\ ops' = Append(ops, op) /\ UNCHANGED n
Next == Len(ops) < Cases[n].depth /\ \E op \in Turns \cup {"text", "blueprint"} : Apply(op)
Spec == Init /\ [][Next]_vars
Emit == PrintT("@G " \o ToJson(<<n, ops, g.w, g.h, g.s>>))

\* ---- properties of the operations --------------------------------------------
Open(x) == [w |-> x.w, h |-> x.h, wx |-> FALSE, wy |-> FALSE, L |-> 1000, ub |-> <<FALSE, FALSE, FALSE, FALSE>>, bb |-> <<FALSE, FALSE, FALSE, FALSE>>]
\* the rules that do not depend on which sides of a splitter are connected
Sound(x) == (\A k \in 1..Len(x.s) : x.s[k] <= 44) => BrokenRules(x.s, Open(x)) \cap {"splitter-pair", "underground"} = {}
KeepsRules == Sound(g) => \A op \in Turns : Sound(Do(op, g))
GroupLaws ==
  LET c == [g EXCEPT !.s = [k \in 1..Len(g.s) |-> Canon(g.s[k])]] IN
  /\ Rot90(Rot270(c)) = c /\ Rot180(Rot180(c)) = c /\ FlipX(FlipX(c)) = c /\ FlipY(FlipY(c)) = c
  /\ FlipX(FlipY(c)) = Rot180(c) /\ FlipX(Rot90(c)) = Rot270(FlipX(c))
BlueprintStable == Can("blueprint", g) => Through(Through(g)) = Through(g)
=============================================================================
