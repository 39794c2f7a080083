------------------------------ MODULE TraceOrder ------------------------------
(* Concurrent histories whose answers tell the order in which the requests    *)
(* took effect (each sum, or each grown value, occurs once): executed in that *)
(* order by Hop, every answer and the final contents have to come out, and no *)
(* request may take effect before one that had ended when it began.           *)
EXTENDS Hop, Json, IOUtils

\* ev is in the order told; i and r are when a request began and ended.
Hist == ndJsonDeserialize(IOEnv.HIST)

VARIABLES h, n, kv, began, ok

Ev == Hist[h].ev
Entries(s) == [k \in {p.n : p \in Range(s)} |-> AsValue((CHOOSE p \in Range(s) : p.n = k).x)]

Init == /\ h \in 1..Len(Hist)
        /\ n = 1
        /\ kv = Entries(Hist[h].init)
        /\ began = 0        \* the latest beginning of those that took effect
        /\ ok = TRUE

Max(x, y) == IF x > y THEN x ELSE y

Next == /\ ok /\ n <= Len(Ev)
        /\ LET e == Ev[n]
               res == OnKeys(kv, e)
               bad == \/ Hist[h].dead = 1
                      \/ e.o.k # res.k
                      \/ res.k = 0 /\ ~ObservedIs(e.c, e.o.v, res.v)
                      \/ e.r < began
                      \/ n = Len(Ev) /\ ~EqKV(res.kv, Entries(Hist[h].fin))
           IN /\ ok' = ~bad
              /\ kv' = res.kv
              /\ began' = Max(began, e.i)
              /\ IF bad THEN PrintT(<< "REJ", Hist[h].id, n >>)
                 ELSE n = Len(Ev) => PrintT(<< "ACC", Hist[h].id, n >>)
        /\ n' = n + 1
        /\ UNCHANGED h

Spec == Init /\ [][Next]_<< h, n, kv, began, ok >>
=============================================================================
