------------------------------ MODULE TraceMany ------------------------------
(* Recorded histories of many sessions, subscriptions and requests against    *)
(* Many.                                                                      *)
EXTENDS Many, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, st, ok

Ev == Hist[h].ev

CSub == 310
CUnsub == 311
CHas == 312
CDrop == 313
COpen == 314
CRequests == 315
CStats == 316
CAdd == 317
CTake == 318
CCounters == 319

Right(e) ==
    CASE e.c = CSub -> e.o = Flip(Subscribed(st, e))
      [] e.c = CUnsub -> e.o = Subscribed(st, e)
      [] e.c = CHas -> e.o = Subscribed(st, e)
      [] e.c = CDrop -> RemoveSays(st, e, e.o)
      [] e.c = COpen -> OpenSays(st, e, e.o)
      [] e.c = CRequests -> e.o[1] + e.o[2] = e.x1
      [] e.c \in {CStats, CCounters} -> e.o = st.counts
      [] e.c = CAdd -> AddSays(st, e, e.o)
      [] e.c = CTake -> TakeSays(st, e, e.o)

After(e) ==
    CASE e.c = CSub -> Subscribe(st, e)
      [] e.c = CUnsub -> Unsubscribe(st, e)
      [] e.c = CDrop -> RemoveAll(st, e)
      [] e.c = CRequests -> [st EXCEPT !.counts[1] = @ + e.o[1], !.counts[2] = @ + e.o[2]]
      \* reading the counters is itself a request
      [] e.c = CStats -> [st EXCEPT !.counts[1] = @ + 1]
      [] e.c = CAdd -> Add(st, e, e.o)
      [] e.c = CTake -> Take(st, e, e.o)
      [] OTHER -> st

\* Every subscription is the latest made for its session and key.
Consistent == Cardinality(st.subs) = Len(SelectSeq(st.chans, LAMBDA x : x[3] = 1))

Init == /\ h \in 1..Len(Hist)
        /\ i = 1
        /\ st = Start
        /\ ok = TRUE

Next == /\ ok
        /\ i <= Len(Ev)
        /\ LET e == Ev[i]
               good == e.k = 0 /\ Right(e)
           IN /\ ok' = good
              /\ IF ~good THEN PrintT(<< "REJ", Hist[h].id, i >>)
                 ELSE i = Len(Ev) => PrintT(<< "ACC", Hist[h].id, i >>)
              /\ st' = IF good THEN After(e) ELSE st
        /\ i' = i + 1
        /\ UNCHANGED h

Spec == Init /\ [][Next]_<< h, i, st, ok >>
=============================================================================
