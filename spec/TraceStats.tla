----------------------------- MODULE TraceStats -----------------------------
(* Recorded histories: do all answers to stats, and the counters at the end,  *)
(* fit the requests that ran?                                                 *)
EXTENDS Stats, Json, IOUtils, Hop

Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, said

Ev(x) == Hist[x].ev
KindOf(e) ==
    CASE e.c = 200 -> IF e.o.k = 0 THEN 3 ELSE 0
      [] e.c = 201 -> IF e.o.k = 0 /\ e.o.n = 1 THEN 4 ELSE 0
      [] e.c \in Commands -> IF e.o.k = 0 THEN 1 ELSE IF e.o.k = 1 THEN 2 ELSE 0
      [] OTHER -> 0
IsReading(e) == e.c = CStats /\ e.o.k = 0

Num(b) == b[8] + 256 * b[7] + 65536 * b[6]
Small(b) == Len(b) = 8 /\ \A i \in 1..5 : b[i] = 0
Names == << commands_successful, commands_errored, sessions_started, sessions_ended >>
\* A counter that never counted may be missing.
ValueOf(o, name) ==
    LET q == {p \in Range(o.v.v) : p[1] = name}
    IN IF q = {} THEN 0 ELSE LET p == CHOOSE p \in q : TRUE IN IF Small(p[2]) THEN Num(p[2]) ELSE -1
WellFormed(o) == /\ o.v.t = KMap
                 /\ \A p \in Range(o.v.v) : p[1] \in Range(Names)
                 /\ \A p, q \in Range(o.v.v) : p[1] = q[1] => p = q

Good(x) ==
    LET ev == Ev(x)
        n == Len(ev)
        kind == [e \in 1..n |-> KindOf(ev[e])]
        before == [e \in 1..n |-> Range(ev[e].p)]
        readings == {e \in 1..n : IsReading(ev[e])}
        val == [e \in readings |-> [c \in Counters |-> ValueOf(ev[e].o, Names[c])]]
    IN /\ Hist[x].dead = 0
       /\ \A e \in 1..n : ev[e].o.k \in {0, 1}
       /\ \A e \in readings : WellFormed(ev[e].o)
       /\ Fits(n, kind, before, val, readings)
       /\ \A c \in Counters : Hist[x].n[c] = Cardinality({e \in 1..n : kind[e] = c})

Init == h \in 1..Len(Hist) /\ said = FALSE
Next == /\ ~said /\ said' = TRUE /\ UNCHANGED h
        /\ IF Good(h) THEN PrintT(<< "ACC", Hist[h].id, 0 >>) ELSE PrintT(<< "REJ", Hist[h].id, 0 >>)
Spec == Init /\ [][Next]_<< h, said >>
=============================================================================
