------------------------------ MODULE TraceHop ------------------------------
(* Checks histories of requests recorded from one engine against Hop.         *)
EXTENDS Hop, Json, IOUtils

\* One record per history: id, u (the keys whose contents were recorded) and ev.
\* An event is a request with its outcome o and the contents s after it.
Hist == ndJsonDeserialize(IOEnv.HIST)
Mode == IOEnv.MODE      \* "full", "refusal" (K04) or "answer" (K05)

VARIABLES h, i, st, ok

Ev == Hist[h].ev
Snap(e) == [k \in {p.n : p \in Range(e.s)} |->
              AsValue((CHOOSE p \in Range(e.s) : p.n = k).x)]

\* Everything that could make an event wrong.
Wrong(e, res) ==
    CASE Mode = "answer" -> e.o.k \notin {0, 1}
      [] Mode = "refusal" ->
            \/ e.o.k \notin {0, 1}
            \/ e.o.k = 1 /\ ~EqKV(Snap(e), st.kv)
      [] OTHER ->
            \/ e.o.k # res.k
            \/ IF res.k = 0 THEN ~ObservedIs(e.c, e.o.v, res.v) ELSE e.o.e # res.e
            \/ ~EqKV(Snap(e), res.kv)

Expected(res) == IF res.k = 0 THEN << "value", res.v >> ELSE << "error", res.e >>

Init == /\ h \in 1..Len(Hist)
        /\ i = 1
        /\ st = NewStore
        /\ ok = TRUE

Next == /\ ok
        /\ i <= Len(Ev)
        /\ LET e == Ev[i]
               res == Exec(st, e)
               bad == Wrong(e, res)
           IN /\ ok' = ~bad
              /\ IF bad
                 THEN /\ PrintT(<< "REJ", Hist[h].id, i >>)
                      /\ PrintT(<< "WANT", Hist[h].id, Expected(res) >>)
                 ELSE i = Len(Ev) => PrintT(<< "ACC", Hist[h].id, i >>)
              /\ st' = IF Mode = "full" THEN After(st, res)
                       ELSE [st EXCEPT !.kv = Snap(e)]
        /\ i' = i + 1
        /\ UNCHANGED h

Spec == Init /\ [][Next]_<< h, i, st, ok >>
=============================================================================
