----------------------------- MODULE Encodings -----------------------------
(* What the Boolean encodings mean.  A case is a record                       *)
(*    op        name of the encoding                                          *)
(*    w         widths of its operands, in bits                               *)
(*    a         integer parameters                                            *)
(* Its visible bits are those of the operands one after the other; the state  *)
(* machine goes through the cases and prints the assignments (as integers,    *)
(* first bit least significant) for which the statement is true; of a case    *)
(* with a list vs of operand values it prints which of these are true.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE n
Pow == [k \in 0..30 |-> 2 ^ k]
Bit(m, k) == (m \div Pow[k]) % 2 = 1
Size(c) == IF Len(c.w) = 0 THEN 0 ELSE LET RECURSIVE S(_)
                                           S(k) == IF k = 0 THEN 0 ELSE c.w[k] + S(k - 1) IN S(Len(c.w))
From(c, k) == LET RECURSIVE S(_)
                  S(j) == IF j = 0 THEN 0 ELSE c.w[j] + S(j - 1) IN S(k - 1)
\* the value of operand k under assignment m
V(c, m, k) == (m \div Pow[From(c, k)]) % Pow[c.w[k]]
Values(c, m) == [k \in DOMAIN c.w |-> V(c, m, k)]
Ones(v, w) == Cardinality({k \in 0..(w - 1) : Bit(v, k)})
RECURSIVE SumOf(_, _)
SumOf(vs, k) == IF k = 0 THEN 0 ELSE vs[k] + SumOf(vs, k - 1)
\* a precedes b or is equal, comparing from the first bit on, false before true
LexLE(a, b, w) == \/ a = b
                  \/ \E k \in 0..(w - 1) : ~Bit(a, k) /\ Bit(b, k) /\ \A j \in 0..(w - 1) : j < k => Bit(a, j) = Bit(b, j)
LastOp(c) == Len(c.w)
\* the statement about operands with values vs
Means(c, vs) ==
  LET v(k) == vs[k]
      w == c.w
      full == Pow[w[1]]
  IN CASE c.op = "at-most-one" -> Ones(v(1), w[1]) <= 1
       [] c.op = "exactly-one" -> Ones(v(1), w[1]) = 1
       [] c.op = "equals" -> Ones(v(1), w[1]) = c.a[1]
       [] c.op = "at-most" -> Ones(v(1), w[1]) <= c.a[1]
       [] c.op = "at-least" -> Ones(v(1), w[1]) >= c.a[1]
       [] c.op = "add" -> v(1) + v(2) = v(3)                              \* no overflow, or an output one bit longer
       [] c.op = "add-overflow" -> (v(1) + v(2)) % full = v(3)
       [] c.op = "add-carry" -> v(1) + v(2) + v(4) = v(3)
       [] c.op = "add-carry-overflow" -> (v(1) + v(2) + v(4)) % full = v(3)
       [] c.op = "sum" -> SumOf(vs, LastOp(c) - 1) = v(LastOp(c))
       [] c.op = "sum-overflow" -> SumOf(vs, LastOp(c) - 1) % full = v(LastOp(c))
       [] c.op = "increment" -> (v(1) + 1) % full = v(2)
       [] c.op = "popcount" -> Ones(v(1), w[1]) = v(2)
       [] c.op = "negate" -> v(1) # full \div 2 /\ (v(1) + v(2)) % full = 0   \* the most negative number has no opposite
       [] c.op = "number" -> v(1) = c.a[1]
       [] c.op = "not-number" -> v(1) # c.a[1]
       [] c.op = "maximum" -> v(1) <= c.a[1]
       [] c.op = "pair" -> {<<v(1), v(2)>>} \subseteq {<<c.a[1], c.a[2]>>, <<c.a[2], c.a[1]>>}
       [] c.op = "equal" -> v(1) = v(2)
       [] c.op = "lex" -> LexLE(v(1), v(2), w[1])
       [] c.op = "implies" -> v(1) = full - 1 => \E k \in 0..(w[2] - 1) : Bit(v(2), k)     \* consequence: one clause
       [] c.op = "implies-all" -> v(1) = full - 1 => v(2) = Pow[w[2]] - 1
       [] c.op = "all-false" -> v(1) = 0
       [] c.op = "all-true" -> v(1) = full - 1
       [] c.op = "same" -> v(1) = v(2)
       [] c.op = "different" -> v(1) # v(2)
       [] c.op = "not-all" -> v(1) # full - 1
True(c) == {m \in 0..(Pow[Size(c)] - 1) : Means(c, Values(c, m))}
\* an encoding of numbers, read back
Read(v, w, signed) == IF signed /\ Bit(v, w - 1) THEN v - Pow[w] ELSE v
Init == n \in 1..Len(Cases)
Next == UNCHANGED n
\* operands too wide for all their values: c.vs are the ones to judge
Wide(c) == {k \in DOMAIN c.vs : Means(c, c.vs[k])}
Emit == PrintT("@E " \o ToJson(<<n, LET c == Cases[n] IN
                 IF c.op = "read" THEN [v \in 1..Pow[c.w[1]] |-> Read(v - 1, c.w[1], c.a[1] = 1)] 
                 ELSE IF Len(c.vs) > 0 THEN SetToSeq(Wide(c)) ELSE SetToSeq(True(c))>>))
=============================================================================
