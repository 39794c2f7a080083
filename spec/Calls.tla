-------------------------------- MODULE Calls --------------------------------
(* Calls of clones of one client, as an observer sees them: a call starts, its *)
(* request reaches the server whole, the server sends the whole response, and  *)
(* the call ends; it may be cancelled before that. What a call ends with is    *)
(* the response the server sent to that very call's request.                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Ids
VARIABLES started, seen, answer, ended, cancelled, trouble
ovars == << started, seen, answer, ended, cancelled, trouble >>

\* An answer or an outcome is a record with k: 0 a value, 1 an error of the
\* store, 3 a failure. Nothing yet: [k |-> -1].
None == [k |-> -1]
Failure == [k |-> 3]

CInit == /\ started = {} /\ seen = {} /\ ended = {} /\ cancelled = {}
         /\ answer = [i \in Ids |-> None]
         /\ trouble = FALSE

Live(i) == i \in started /\ i \notin ended /\ i \notin cancelled

Start(i) == /\ i \notin started
            /\ started' = started \cup {i}
            /\ UNCHANGED << seen, answer, ended, cancelled, trouble >>
\* A cancelled call's response may still be on its way.
Cancel(i) == /\ Live(i)
             /\ cancelled' = cancelled \cup {i}
             /\ trouble' = TRUE
             /\ UNCHANGED << started, seen, answer, ended >>
See(i) == /\ i \in started /\ i \notin seen
          /\ seen' = seen \cup {i}
          /\ UNCHANGED << started, answer, ended, cancelled, trouble >>
Answer(i, r) == /\ i \in seen /\ answer[i].k = -1
                /\ answer' = [answer EXCEPT ![i] = r]
                /\ trouble' = (trouble \/ r.k = 3)
                /\ UNCHANGED << started, seen, ended, cancelled >>
\* The server ends the connection.
Close == trouble' = TRUE /\ UNCHANGED << started, seen, answer, ended, cancelled >>

Same(o, r) == o.k = r.k /\ CASE o.k = 0 -> o.v.t = r.v.t /\ o.v.v = r.v.v
                             [] o.k = 1 -> o.e = r.e
                             [] OTHER -> FALSE
Right(i, o) == \/ Same(o, answer[i])
               \/ o.k = 3 /\ trouble
End(i, o) == /\ Live(i)
             /\ Right(i, o)
             /\ ended' = ended \cup {i}
             /\ UNCHANGED << started, seen, answer, cancelled, trouble >>
=============================================================================
