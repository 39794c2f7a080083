------------------------------- MODULE LinMet -------------------------------
(* Histories of operations on a metrics instance, concurrent or not: is there *)
(* an order of their moments in which every outcome is the specified one?     *)
EXTENDS Metrics, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.HIST)

CInc == 220      \* a counter's name; whether it counted
CGauge == 221    \* a gauge's name, b value
CCounter == 222
CGaugeOf == 223
CValid == 224
CSnap == 225     \* n the snapshot's number, cs and gs its contents
CLook == 226
CDrop == 227

VARIABLES h, done, mid, m, snaps

vars == << h, done, mid, m, snaps >>
Ev == Hist[h].ev
N == Len(Ev)
Range(s) == {s[i] : i \in DOMAIN s}

Init == /\ h \in 1..Len(Hist)
        /\ Hist[h].dead = 0
        /\ \A i \in 1..N : Ev[i].o.k = 0
        /\ done = {} /\ mid = [i \in {} |-> {}]
        /\ m = NewMetrics
        /\ snaps = {}

Free(i) == i \notin done /\ \A j \in Range(Ev[i].p) : j \in done
Begun(i) == i \in DOMAIN mid

End(i, x) == /\ m' = x
             /\ done' = done \cup {i}
             /\ mid' = [j \in DOMAIN mid \ {i} |-> mid[j]]
Begin(i, x) == /\ m' = Pin(m, i)
               /\ mid' = [j \in DOMAIN mid \cup {i} |-> IF j = i THEN x ELSE mid[j]]
               /\ UNCHANGED << done, snaps >>

\* Nothing can be read or written once the instance is gone.
Fails(e) == e.o.n = (IF e.c \in {CInc, CGauge} THEN 0 ELSE None)
OnHandle(i) ==
    LET e == Ev[i] IN
    /\ e.c \in {CInc, CGauge, CCounter, CGaugeOf}
    /\ UNCHANGED snaps
    /\ \/ ~Begun(i) /\ Alive(m) /\ Begin(i, {})
       \/ ~Begun(i) /\ ~Alive(m) /\ Fails(e) /\ End(i, m)
       \/ /\ Begun(i)
          /\ CASE e.c = CInc -> e.o.n = 1 /\ End(i, Unpin(Count(m, e.a), i))
               [] e.c = CGauge -> e.o.n = 1 /\ End(i, Unpin(Gauge(m, e.a, e.b), i))
               [] e.c = CCounter -> e.o.n = Read(m.cnt, e.a) /\ End(i, Unpin(m, i))
               [] e.c = CGaugeOf -> e.o.n = Read(m.gau, e.a) /\ End(i, Unpin(m, i))

Valid(i) ==
    LET e == Ev[i] IN
    /\ e.c = CValid
    /\ e.o.n = (IF Alive(m) THEN 1 ELSE 0)
    /\ End(i, m) /\ UNCHANGED snaps

\* A snapshot of a changing instance reads each number at its own moment.
Names(e) == {<< 1, p[1] >> : p \in Range(e.o.cs)} \cup {<< 2, p[1] >> : p \in Range(e.o.gs)}
\* Names that are in use now and not in the snapshot had to be read before.
Missing(e) == {<< 1, k >> : k \in {q.a : q \in {Ev[j] : j \in {x \in 1..N : Ev[x].c = CInc}}}}
              \cup {<< 2, k >> : k \in {q.a : q \in {Ev[j] : j \in {x \in 1..N : Ev[x].c = CGauge}}}}
All(e) == Names(e) \cup Missing(e)
Kept(e, x) == LET ps == IF x[1] = 1 THEN e.o.cs ELSE e.o.gs
                  q == {p \in Range(ps) : p[1] = x[2]}
              IN IF q = {} THEN None ELSE (CHOOSE p \in q : TRUE)[2]
Now(x) == Read(IF x[1] = 1 THEN m.cnt ELSE m.gau, x[2])
Snapshot(i) ==
    LET e == Ev[i] IN
    /\ e.c = CSnap
    /\ \/ ~Begun(i) /\ e.o.n = None /\ ~m.own /\ End(i, m) /\ UNCHANGED snaps
       \/ ~Begun(i) /\ e.o.n # None /\ m.own /\ Begin(i, {})
       \/ /\ Begun(i) /\ mid[i] # All(e)
          \* whatever can be read now may be; it never helps to wait for less
          /\ \E x \in All(e) \ mid[i] :
               /\ Now(x) = Kept(e, x)
               /\ mid' = [mid EXCEPT ![i] = @ \cup {x}]
          /\ UNCHANGED << done, m, snaps >>
       \/ /\ Begun(i) /\ mid[i] = All(e)
          /\ snaps' = snaps \cup {<< e.o.n, Range(e.o.cs), Range(e.o.gs) >>}
          /\ End(i, Unpin(m, i))

Look(i) ==
    LET e == Ev[i] IN
    /\ e.c = CLook
    /\ << e.o.n, Range(e.o.cs), Range(e.o.gs) >> \in snaps
    /\ e.o.n = e.a
    /\ End(i, m) /\ UNCHANGED snaps

\* The owner is found (and no longer there for others), then gone.
Leave(i) ==
    LET e == Ev[i] IN
    /\ e.c = CDrop
    /\ UNCHANGED snaps
    /\ \/ ~Begun(i) /\ e.o.n = 0 /\ ~m.own /\ End(i, m)
       \/ ~Begun(i) /\ e.o.n = 1 /\ m.own
          /\ m' = Pin([m EXCEPT !.own = FALSE], i)
          /\ mid' = [j \in DOMAIN mid \cup {i} |-> IF j = i THEN {} ELSE mid[j]]
          /\ UNCHANGED done
       \/ Begun(i) /\ End(i, Unpin(m, i))

Over == done = 1..N
Next == /\ \/ ~Over /\ \E i \in 1..N : Free(i) /\ (OnHandle(i) \/ Valid(i) \/ Snapshot(i) \/ Look(i) \/ Leave(i))
           \/ Over /\ PrintT(<< "ACC", Hist[h].id, N >>) /\ UNCHANGED << done, mid, m, snaps >>
        /\ UNCHANGED h

Spec == Init /\ [][Next]_vars
=============================================================================
