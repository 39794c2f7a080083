----------------------------- MODULE TraceCalls -----------------------------
(* Checks what was seen of overlapping calls of clones of one client.         *)
EXTENDS Calls, Json, IOUtils, TLC

\* An event is [op, i, o]: 0 the call i starts, 1 it is cancelled, 2 the server has
\* its whole request, 3 the server sends the rest of the response o, 4 the call
\* ends with o, 5 the server got what nobody sent, 6 it closes the connection.
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, k, ok
vars == << ovars, h, k, ok >>
Ev == Hist[h].ev
TraceIds == 0..atoi(IOEnv.MAXID)

Step(e) ==
    \/ e.op = 0 /\ Start(e.i)
    \/ e.op = 1 /\ Cancel(e.i)
    \/ e.op = 2 /\ See(e.i)
    \/ e.op = 3 /\ Answer(e.i, e.o)
    \/ e.op = 4 /\ End(e.i, e.o)
    \/ e.op = 6 /\ Close

Can(e) ==
    CASE e.op = 0 -> e.i \notin started
      [] e.op = 1 -> Live(e.i)
      [] e.op = 2 -> e.i \in started /\ e.i \notin seen
      [] e.op = 3 -> e.i \in seen /\ answer[e.i].k = -1
      [] e.op = 4 -> Live(e.i) /\ Right(e.i, e.o)
      [] OTHER -> e.op = 6

\* In the end every call has ended or was cancelled.
Over == started' = ended' \cup cancelled'
OverThen(e) == started \cup (IF e.op = 0 THEN {e.i} ELSE {}) =
               ended \cup cancelled \cup (IF e.op \in {1, 4} THEN {e.i} ELSE {})

Init == CInit /\ h \in 1..Len(Hist) /\ k = 0 /\ ok = TRUE
Go == /\ ok /\ k < Len(Ev) /\ Step(Ev[k + 1])
      /\ k' = k + 1 /\ UNCHANGED << h, ok >>
      /\ k' < Len(Ev) \/ (Over /\ PrintT(<< "ACC", Hist[h].id, k' >>))
Bad == /\ ok /\ k < Len(Ev)
       /\ ~Can(Ev[k + 1]) \/ (k + 1 = Len(Ev) /\ ~OverThen(Ev[k + 1]))
       /\ ok' = FALSE /\ UNCHANGED << ovars, h, k >>
       /\ PrintT(<< "REJ", Hist[h].id, k + 1 >>)
Next == Go \/ Bad
Spec == Init /\ [][Next]_vars
=============================================================================
