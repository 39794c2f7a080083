------------------------------ MODULE TraceFault ------------------------------
(* Checks single calls to servers that answer anything.                        *)
EXTENDS Client, Json, IOUtils

\* An event is a call with: how (0 a server that answers, 1 nobody listens, 2 the
\* connection is reset at once), w (the request's bytes), rep (the bytes that
\* were answered), end (0 the server goes on and answers the next request, 1 it
\* closes, 2 it resets), o, and o2 of the call that came after, echo(again).
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, ok
Ev == Hist[h].ev
Full(e) == [m |-> e.m, t |-> e.t, a |-> e.a, v |-> e.v, raw |-> Hist[h].raw]
Again == << << 97, 103, 97, 105, 110 >> >>
Echoed(o) == o.k = 0 /\ o.v.t = KList /\ o.v.v = Again

Good(x) ==
    LET e == Full(x)
        no == Refusals(e)
    IN IF x.how = 1 THEN x.o.k = 3
       ELSE IF x.how = 2 THEN (x.o.k = 3 \/ (x.o.k = 2 /\ x.o.e \in no)) /\ x.o2.k = 3
       ELSE IF no # {} THEN x.o.k = 2 /\ x.o.e \in no /\ x.o2.k \notin {4, 5}
       ELSE /\ Spells(x.w, e)
            /\ ReplyOk(e, x.rep, x.o) \/ (x.end = 2 /\ x.o.k = 3)
            /\ IF x.end = 0 /\ WholeReply(x.rep) /\ x.o.k \in {0, 1} THEN Echoed(x.o2)
               ELSE x.o2.k = 3 \/ (x.end = 0 /\ Echoed(x.o2))

Init == h \in 1..Len(Hist) /\ i = 0 /\ ok = TRUE
Next == /\ ok /\ i < Len(Ev) /\ i' = i + 1 /\ UNCHANGED h
        /\ ok' = Good(Ev[i + 1])
        /\ IF ok' THEN i' = Len(Ev) => PrintT(<< "ACC", Hist[h].id, i' >>)
           ELSE PrintT(<< "REJ", Hist[h].id, i' >>)
Spec == Init /\ [][Next]_<< h, i, ok >>
=============================================================================
