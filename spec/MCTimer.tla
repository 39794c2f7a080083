------------------------------ MODULE MCTimer ------------------------------
(* All calls in any order while time passes, in seconds of three nanoseconds. *)
EXTENDS Timer

VARIABLES t, now, last, started
vars == << t, now, last, started >>

Times == {<< s, n >> : s \in 0..2, n \in 0..Sec - 1}
Answers == [b : {0, 1}, d : {<< >>} \cup Times]

Init == t = Fresh /\ now = << 0, 0 >> /\ last = << >> /\ started = << >>
Pass == /\ \E x \in Times : Leq(now, x) /\ now' = x
        /\ UNCHANGED << t, last, started >>
Call == /\ \E c \in 0..4, o \in Answers :
             /\ Allows(t, c, now, now, o)
             /\ c \notin {CStart, CRunning} => o.b = 0
             /\ c \in {CStart, CRunning, CReset} => o.d = << >>
             /\ t' = Then(t, c, now, now, o)
             /\ last' = << c, o >>
             /\ started' = IF c = CStart /\ o.b = 1 THEN now ELSE started
        /\ UNCHANGED now
Next == Pass \/ Call
Spec == Init /\ [][Next]_vars

Stopped == t.s = 2 => t.d = t.d /\ t.d # << >> /\ t.d \in Times
\* A duration, once told, stays until reset.
Fixed == [][t.s = 2 /\ t'.s = 2 => t'.d = t.d]_vars
OnlyReset == [][t.s = 2 /\ t'.s # 2 => last'[1] = CReset /\ t' = Fresh]_vars
Exact == last # << >> /\ last[1] = CStop /\ last[2].d # << >> /\ t.s = 2 => Leq(last[2].d, Minus(now, started))
RunningIsBetween == last # << >> /\ last[1] = CRunning /\ last[2].b = 1 => started # << >>
=============================================================================
