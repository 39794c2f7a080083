------------------------------ MODULE MCCalls ------------------------------
(* The client's way of doing it: one call at a time has the connection, sends  *)
(* its request and reads the response; a mark says whether a response is still *)
(* owed, so that a call that finds it leaves the connection alone. Requests    *)
(* and responses go in two pieces; a call can be cancelled wherever it waits.  *)
EXTENDS Calls, TLC, IOUtils

Marked == IOEnv.MARK = "1"     \* without the mark it is wrong

VARIABLES pc,       \* "new", "queued", "writing", "reading", "done", "gone"
          lock,     \* who has the connection, 0: nobody
          piece,    \* how many pieces a call wrote or read
          mark,     \* whether a response is owed
          up,       \* pieces on the way to the server
          down,     \* and back
          got,      \* what the call has read
          part      \* how much of the next response the server has sent
mvars == << pc, lock, piece, mark, up, down, got, part >>
vars == << ovars, mvars >>

ValueFor(i) == [k |-> 0, v |-> [t |-> 0, v |-> << i >>]]

Init == /\ CInit
        /\ pc = [i \in Ids |-> "new"] /\ lock = 0
        /\ piece = [i \in Ids |-> 0] /\ mark = FALSE
        /\ up = <<>> /\ down = <<>> /\ got = [i \in Ids |-> <<>>] /\ part = 0

Begin(i) == /\ pc[i] = "new" /\ Start(i)
            /\ pc' = [pc EXCEPT ![i] = "queued"]
            /\ UNCHANGED << lock, piece, mark, up, down, got, part >>

\* The connection is the call's, and a response is owed or not.
Take(i) == /\ pc[i] = "queued" /\ lock = 0
           /\ IF Marked /\ mark
              THEN /\ pc' = [pc EXCEPT ![i] = "done"]
                   /\ UNCHANGED << lock, mark >>
                   /\ End(i, Failure)
              ELSE /\ lock' = i /\ mark' = TRUE
                   /\ pc' = [pc EXCEPT ![i] = "writing"]
                   /\ UNCHANGED ovars
           /\ UNCHANGED << piece, up, down, got, part >>
Write(i) == /\ pc[i] = "writing"
            /\ up' = Append(up, << i, piece[i] + 1 >>)
            /\ IF piece[i] = 1 THEN /\ pc' = [pc EXCEPT ![i] = "reading"]
                                    /\ piece' = [piece EXCEPT ![i] = 0]
               ELSE /\ piece' = [piece EXCEPT ![i] = 1] /\ UNCHANGED pc
            /\ UNCHANGED << ovars, lock, mark, down, got, part >>
Read(i) == /\ pc[i] = "reading" /\ down # <<>>
           /\ down' = Tail(down)
           /\ LET g == Append(got[i], Head(down))
              IN /\ got' = [got EXCEPT ![i] = g]
                 /\ IF Len(g) < 2 THEN UNCHANGED << pc, lock, mark, ovars >>
                    ELSE /\ pc' = [pc EXCEPT ![i] = "done"]
                         /\ lock' = 0 /\ mark' = FALSE
                         \* Half of one and half of another isn't a response.
                         /\ End(i, IF g[1][1] = g[2][1] THEN ValueFor(g[1][1]) ELSE Failure)
           /\ UNCHANGED << piece, up, part >>
Drop(i) == /\ pc[i] \in {"queued", "writing", "reading"}
           /\ Cancel(i)
           /\ pc' = [pc EXCEPT ![i] = "gone"]
           /\ lock' = IF lock = i THEN 0 ELSE lock
           /\ UNCHANGED << piece, mark, up, down, got, part >>

\* The server takes whole requests and answers them in order.
Take2 == /\ Len(up) >= 2 /\ up[1][1] = up[2][1] /\ up[1][2] = 1 /\ up[2][2] = 2
         /\ up[1][1] \notin seen
         /\ See(up[1][1])
         /\ UNCHANGED mvars
Send == /\ Len(up) >= 2 /\ up[1][1] \in seen
        /\ down' = Append(down, << up[1][1], part + 1 >>)
        /\ IF part = 0 THEN part' = 1 /\ UNCHANGED << up, ovars >>
           ELSE /\ part' = 0 /\ up' = SubSeq(up, 3, Len(up))
                /\ Answer(up[1][1], ValueFor(up[1][1]))
        /\ UNCHANGED << pc, lock, piece, mark, got >>

Next == Take2 \/ Send \/ \E i \in Ids : Begin(i) \/ Take(i) \/ Write(i) \/ Read(i) \/ Drop(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Take2) /\ WF_vars(Send)
        /\ \A i \in Ids : SF_vars(Take(i)) /\ WF_vars(Write(i)) /\ WF_vars(Read(i))

\* It only ever does what Calls allows: no step ends a call otherwise.
Stuck(i) == pc[i] = "reading" /\ Len(got[i]) = 1 /\ down # <<>>
Own == \A i \in Ids : Len(got[i]) = 2 => (got[i][1][1] = i /\ got[i][2][1] = i)
Whole == Len(up) >= 2 => (up[1][1] = up[2][1])
\* A call that is never cancelled ends.
Ends == \A i \in Ids : [](i \in started => <>(i \in ended \cup cancelled))
\* The response is owed to whoever has the connection, or to nobody any more.
Owed == (Marked /\ lock # 0) => mark
=============================================================================
