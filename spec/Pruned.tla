------------------------------- MODULE Pruned -------------------------------
(* Building layouts tile by tile without excluded patterns: a configuration  *)
(* has, besides the fields of Layout, rules, the names of the patterns.      *)
(* An instance of a pattern is judged when the last cell it names is filled. *)
EXTENDS Layout, Patterns

N(c) == c.w * c.h
Shape(c) == <<c.w, c.h, c.wx, c.wy, c.L, c.rules>>
Index(c, p) == p[2] * c.w + p[1] + 1
AllInstances(c) == UNION {Instances(c.rules[r], c) : r \in 1..Len(c.rules)}
LastOf(c, I) == CHOOSE n \in {Index(c, e[1]) : e \in I} : \A e \in I : Index(c, e[1]) <= n
\* the instances by the last cell they name and the tile there; that cell itself is left out
BadOf == LET shapes == {Shape(Cfgs[i]) : i \in 1..NC}
         IN [sh \in shapes |-> LET c == Cfgs[CHOOSE i \in 1..NC : Shape(Cfgs[i]) = sh]
                                   all == {<<LastOf(c, I), I>> : I \in AllInstances(c)}
                                   at == [n \in 1..N(c) |-> {x[2] : x \in {y \in all : y[1] = n}}]
                                   cell(n) == <<(n - 1) % c.w, (n - 1) \div c.w>>
                               IN [n \in 1..N(c) |-> [t \in AllTiles |->
                                     {{e \in I : e[1] # cell(n)} : I \in {J \in at[n] : \A e \in J : e[1] = cell(n) => t \in e[2]}}]]]
BadBy == [i \in 1..NC |-> BadOf[Shape(Cfgs[i])]]
NoneEndsAt(s, i, n) == ~Contains(BadBy[i][n][s[n]], s, Cfgs[i])
NoPattern(s, i) == \A n \in 1..N(Cfgs[i]) : NoneEndsAt(s, i, n)
=============================================================================
