-------------------------------- MODULE Locks --------------------------------
(* Threads running sections of lock operations recorded from the engine, in   *)
(* every order and however the locks they take fall together: can they all    *)
(* wait for each other?                                                       *)
(* A section is what one thread does from taking a first lock to holding none *)
(* again, [st |-> << << kind, lock, class, mergeable >>, ... >>] with kinds   *)
(* 0 (read), 1 (write) and 2 (release).                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Sections == ndJsonDeserialize(IOEnv.HIST)
T == IF IOEnv.THREADS = "3" THEN 1..3 ELSE 1..2
Two == 1..2

VARIABLES sec,  \* thread -> section
          asg,  \* thread -> lock of its section -> which of the locks of that class
          pc, held

vars == << sec, asg, pc, held >>
S(t) == Sections[sec[t]].st
LocksOf(s) == {s[i][2] : i \in 1..Len(s)}

\* Locks that can't be the same are told apart by thread and number.
Name(t, step) == IF step[4] = 1 THEN << step[3], 0, asg[t][step[2]] >>
                 ELSE << step[3], t, step[2] >>

Init == /\ sec \in [T -> 1..Len(Sections)]
        /\ \A t \in T : t > 1 => sec[t - 1] <= sec[t]
        /\ asg \in [T -> [1..6 -> Two]]
        \* the first lock of thread 1 is the first of its class, and locks that
        \* aren't there count as 1
        /\ asg[1][1] = 1
        /\ \A t \in T : \A l \in 1..6 : l \notin LocksOf(S(t)) => asg[t][l] = 1
        /\ pc = [t \in T |-> 1]
        /\ held = {}

Over(t) == pc[t] > Len(S(t))
Step(t) == S(t)[pc[t]]

CanTake(t) ==
    LET n == Name(t, Step(t)) IN
    IF Step(t)[1] = 0 THEN ~\E x \in held : x[1] = n /\ x[2] = 1
    ELSE ~\E x \in held : x[1] = n

Can(t) == ~Over(t) /\ (Step(t)[1] = 2 \/ CanTake(t))

Do(t) == /\ Can(t)
         /\ held' = IF Step(t)[1] = 2
                    THEN held \ {x \in held : x[1] = Name(t, Step(t)) /\ x[3] = t /\ x[4] = Step(t)[2]}
                    ELSE held \cup {<< Name(t, Step(t)), Step(t)[1], t, Step(t)[2] >>}
         /\ pc' = [pc EXCEPT ![t] = @ + 1]
         /\ UNCHANGED << sec, asg >>

Next == \E t \in T : Do(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllOver == \A t \in T : Over(t)
NobodyWaitsForever == AllOver \/ \E t \in T : Can(t)
\* At the end nothing is held.
AllGivenBack == AllOver => held = {}
=============================================================================
