----------------------------- MODULE WireSteps -----------------------------
(* Prints what every byte string over a small alphabet parses as, to be       *)
(* replayed in the real parser.                                               *)
EXTENDS Wire, Json, IOUtils
Alpha == {0, 1, 2, 101, 128, 229, 9, 100}
Max == IF IOEnv.DEEP = "1" THEN 6 ELSE 5
\* Longer ones that get as far as their arguments.
Heads == {<<100>>, <<228, 0>>, <<10>>, <<138, 7>>}
Tails == {<<1, 0, 0, 0>>, <<2, 0, 0, 0>>}
VARIABLES b, from
Init == from \in {0, 1} /\ b \in (IF from = 0 THEN {<<>>} ELSE {x \o y : x \in Heads, y \in Tails})
Out(p) == CASE p.r = 0 -> << 0 >> [] p.r = 1 -> << 1, p.e >> [] OTHER -> << 2, p.c, p.k, p.n, p.a >>
Next == \E x \in Alpha :
    /\ b' = Append(b, x)
    /\ PrintT(ToJson(<< b', Out(Parse(b')) >>))
    /\ UNCHANGED from
Bound == Len(b) < (IF from = 0 THEN Max ELSE Max + 5)
Spec == Init /\ [][Next]_<< b, from >>
=============================================================================
