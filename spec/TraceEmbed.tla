----------------------------- MODULE TraceEmbed -----------------------------
(* Checks histories of an engine that a program uses directly, through several*)
(* handles, and by requests.                                                  *)
EXTENDS Embed, Json, IOUtils

\* As in TraceHop; an event of Direct has n, x and what it gave: p and m.
Hist == ndJsonDeserialize(IOEnv.HIST)

VARIABLES h, i, st, ok

Ev == Hist[h].ev
Snap(e) == [k \in {p.n : p \in Range(e.s)} |-> AsValue((CHOOSE p \in Range(e.s) : p.n = k).x)]
Op(e) == [c |-> e.c, n |-> e.n, x |-> AsValue(e.x)]

Init == /\ h \in 1..Len(Hist)
        /\ i = 1
        /\ st = NewStore
        /\ ok = TRUE

Same(ps, qs) == Len(ps) = Len(qs) /\ \A j \in 1..Len(ps) : EqV(AsValue(ps[j]), qs[j])

Next == /\ ok
        /\ i <= Len(Ev)
        /\ LET e == Ev[i]
           IN IF e.c \in Direct
              THEN LET d == Do(st.kv, Op(e))
                   IN /\ ok' = (e.up = 1 /\ Same(e.p, d.p) /\ e.m = d.m /\ EqKV(Snap(e), d.kv))
                      /\ st' = [st EXCEPT !.kv = d.kv]
                      /\ ~ok' => PrintT(<< "WANT", Hist[h].id, << d.p, d.m >> >>)
              ELSE LET res == Exec(st, e)
                   IN /\ ok' = (/\ e.o.k = res.k
                                /\ IF res.k = 0 THEN ObservedIs(e.c, e.o.v, res.v) ELSE e.o.e = res.e
                                /\ EqKV(Snap(e), res.kv))
                      /\ st' = After(st, res)
                      /\ ~ok' => PrintT(<< "WANT", Hist[h].id, res >>)
        /\ ~ok' => PrintT(<< "REJ", Hist[h].id, i >>)
        /\ (ok' /\ i = Len(Ev)) => PrintT(<< "ACC", Hist[h].id, i >>)
        /\ i' = i + 1
        /\ UNCHANGED h

Spec == Init /\ [][Next]_<< h, i, st, ok >>
=============================================================================
