------------------------------- MODULE MCWire -------------------------------
(* Every byte string over a small alphabet, fed in every way there is: the    *)
(* machine says what Parse says, whatever was fed before.                     *)
EXTENDS Wire, Json, IOUtils

Alpha == {0, 1, 2, 101, 128, 229, 9}
Max == IF IOEnv.DEEP = "1" THEN 7 ELSE 6
Emit == IOEnv.EMIT = "1"

VARIABLES b, m, out, start

vars == << b, m, out, start >>
Init == b = <<>> /\ m = Fresh /\ out = More /\ start = <<>>

\* One more byte; whether the machine is fed is up to the schedule.
Byte == /\ Len(b) < Max /\ out.r = 0
        /\ \E x \in Alpha : b' = Append(b, x)
        /\ UNCHANGED << m, out, start >>
Feeding == /\ out.r = 0 /\ b # <<>>
           /\ LET f == Feed(m, b) IN m' = f[1] /\ out' = f[2]
           /\ UNCHANGED << b, start >>
Next == Byte \/ Feeding
Spec == Init /\ [][Next]_vars

\* What the machine said about the buffer it was last fed.
MachineIsParse == out.r # 0 => out = Parse(b)
MoreIsMore == [][out'.r = 0 /\ m' # m => Parse(b').r = 0]_vars
\* Once something is recognised, more bytes don't change it, and it wasn't early.
Stable == LET p == Parse(b) IN
    p.r = 2 => /\ \A n \in 0..p.n - 1 : Parse(SubSeq(b, 1, n)).r = 0
               /\ \A n \in p.n..Len(b) : Parse(SubSeq(b, 1, n)) = p
               /\ Encode([c |-> p.c, k |-> p.k, a |-> p.a]) = SubSeq(b, 1, p.n)
FreshAfter == out.r = 2 => m = Fresh
Clean == out.r = 1 => m = Fresh
=============================================================================
