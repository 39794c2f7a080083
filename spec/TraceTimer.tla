----------------------------- MODULE TraceTimer -----------------------------
(* Checks recorded uses of the real timer against Timer.                      *)
EXTENDS Timer, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, t, ok
Ev == Hist[h].ev
Init == h \in 1..Len(Hist) /\ i = 1 /\ t = Fresh /\ ok = TRUE
Next == /\ ok /\ i <= Len(Ev)
        /\ LET e == Ev[i]
               good == e.o.k = 0 /\ Allows(t, e.c, e.lo, e.hi, e.o)
           IN /\ ok' = good
              /\ IF ~good THEN PrintT(<< "REJ", Hist[h].id, i >>) /\ PrintT(<< "WANT", Hist[h].id, t >>)
                 ELSE i = Len(Ev) => PrintT(<< "ACC", Hist[h].id, i >>)
              /\ t' = IF good THEN Then(t, e.c, e.lo, e.hi, e.o) ELSE t
        /\ i' = i + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_<< h, i, t, ok >>
=============================================================================
