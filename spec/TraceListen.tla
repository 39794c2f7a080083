---------------------------- MODULE TraceListen -----------------------------
(* Servers started with HOST and PORT, and where they were seen to listen.    *)
EXTENDS Listen, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, ok
Ev == Hist[h].ev

\* An event: h, p what the server is told (<<>> nothing, << text >>); at the
\* sockets it listens on, << address, port >>; up whether it went on running;
\* n the answers it gave to two requests (<<>> if it wasn't asked); b the ports
\* that some other socket had while it was tried.
Told(x) == {x[j] : j \in 1..Len(x)}
Seen(e) ==
    LET a == Host(Told(e.h))
        n == Port(Told(e.p))
    IN IF e.up = 1
       THEN /\ Len(e.at) = 1
            /\ e.at[1][1] = a
            /\ IF n = 0 THEN e.at[1][2] # 0 ELSE e.at[1][2] = n
            /\ e.n \in {<<>>, << 1, 2 >>}
       \* It may give up only if it can't listen there, and is nowhere then.
       ELSE e.at = <<>> /\ ~(Sure(a) /\ Free(n) /\ n \notin Told(e.b))

Init == h \in 1..Len(Hist) /\ i = 1 /\ ok = TRUE
Next == /\ ok /\ i <= Len(Ev)
        /\ ok' = Seen(Ev[i])
        /\ IF ok' THEN i = Len(Ev) => PrintT(<< "ACC", Hist[h].id, i >>)
           ELSE /\ PrintT(<< "REJ", Hist[h].id, i >>)
                /\ PrintT(<< "WANT", Hist[h].id, << Host(Told(Ev[i].h)), Port(Told(Ev[i].p)) >> >>)
        /\ i' = i + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_<< h, i, ok >>
=============================================================================
