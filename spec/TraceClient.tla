----------------------------- MODULE TraceClient -----------------------------
(* Checks programs of calls made in memory and on a server.                    *)
EXTENDS Client, Json, IOUtils

\* A history has id, srv (whether a server was in between), raw, and ev. An
\* event is a call with its outcome; m = -1: the server was ended.
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, st, up, ok
Ev == Hist[h].ev
Full(e) == [m |-> e.m, t |-> e.t, a |-> e.a, v |-> e.v, raw |-> Hist[h].raw]

Init == h \in 1..Len(Hist) /\ i = 1 /\ st = NewStore /\ up = TRUE /\ ok = TRUE
Next == /\ ok /\ i <= Len(Ev) /\ i' = i + 1 /\ UNCHANGED h
        /\ LET e == Full(Ev[i])
               o == Ev[i].o
               good == \/ e.m = -1
                       \/ up /\ CallOk(st, e, o)
                       \/ ~up /\ (IF Refusals(e) # {} THEN o.k = 2 /\ o.e \in Refusals(e) ELSE o.k = 3)
           IN /\ ok' = good
              /\ up' = (up /\ e.m # -1)
              /\ st' = IF e.m = -1 THEN st ELSE CallAfter(st, e)
              /\ IF good THEN i = Len(Ev) => PrintT(<< "ACC", Hist[h].id, i >>)
                 ELSE /\ PrintT(<< "REJ", Hist[h].id, i >>)
                      /\ PrintT(<< "WANT", Hist[h].id, IF up THEN << Refusals(e), IF Refusals(e) = {} THEN Exec(st, RequestOf(e)) ELSE 0 >> ELSE "failure" >>)
Spec == Init /\ [][Next]_<< h, i, st, up, ok >>
=============================================================================
