----------------------------- MODULE CallsPlans -----------------------------
(* Every order in which up to three calls of one client are started, polled and *)
(* cancelled and the server reads, answers, answers in part or closes.         *)
EXTENDS Integers, Sequences, TLC, IOUtils

Depth == atoi(IOEnv.DEPTH)
Calls == 1..3
VARIABLES plan, n, gone, read, owed, half
vars == << plan, n, gone, read, owed, half >>

Last == IF plan = <<>> THEN 0 ELSE plan[Len(plan)]
Init == plan = <<>> /\ n = 0 /\ gone = {} /\ read = FALSE /\ owed = 0 /\ half = FALSE
Add(x) == plan' = Append(plan, x) /\ Last # x

\* A poll does something after the server or another call did.
Begin == /\ n < 3 /\ plan' = Append(plan, 0) /\ n' = n + 1 /\ UNCHANGED << gone, read, owed, half >>
Poll(c) == /\ c <= n /\ c \notin gone /\ Last # 10 * 1 + c
           /\ Add(10 + c) /\ UNCHANGED << n, gone, read, owed, half >>
Cancel(c) == /\ c <= n /\ c \notin gone
             /\ Add(20 + c) /\ gone' = gone \cup {c} /\ UNCHANGED << n, read, owed, half >>
Read == /\ n > owed /\ Last # 30
        /\ Add(30) /\ UNCHANGED << n, gone, owed, half >> /\ read' = TRUE
Reply == /\ read /\ owed < n
         /\ plan' = Append(plan, 40) /\ owed' = owed + 1 /\ half' = FALSE /\ UNCHANGED << n, gone, read >>
Part == /\ read /\ owed < n /\ ~half
        /\ Add(50) /\ half' = TRUE /\ UNCHANGED << n, gone, read, owed >>
Shut == /\ n > 0 /\ \A x \in 1..Len(plan) : plan[x] # 70
        /\ Add(70) /\ UNCHANGED << n, gone, read, owed, half >>
Next == /\ Len(plan) < Depth
        /\ \/ Begin \/ Read \/ Reply \/ Part \/ Shut
           \/ \E c \in Calls : Poll(c) \/ Cancel(c)
        /\ (Len(plan') = Depth) => PrintT(<< "PLAN", plan' >>)
Spec == Init /\ [][Next]_vars
=============================================================================
