------------------------------ MODULE TraceRuns ------------------------------
(* Checks exchanges of large byte values, each told as its runs of equal bytes:*)
(* requests on keys no other connection uses, and their answers, in order.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

\* A history has up (whether the server ran to the end) and ev. An event is one
\* request: c (command), t (connection, and so key), n bytes f, and its answer o.
\* o.k 0: bytes o.r[1]. 1: a list of bytes o.r. 2: the integer o.n. 3: the error
\* o.n (-1: some error). 4: anything else. 5: nothing.
Hist == ndJsonDeserialize(IOEnv.HIST)

VARIABLES h, i, kv, ok
vars == << h, i, kv, ok >>

Ev == Hist[h].ev
Grow(runs, f, n) ==
    IF n = 0 THEN runs
    ELSE IF runs # <<>> /\ runs[Len(runs)][1] = f
    THEN [runs EXCEPT ![Len(runs)] = << f, @[2] + n >>]
    ELSE Append(runs, << f, n >>)
RECURSIVE Size(_)
Size(runs) == IF runs = <<>> THEN 0 ELSE Head(runs)[2] + Size(Tail(runs))
Has(t) == t \in DOMAIN kv
With(t, x) == [k \in DOMAIN kv \cup {t} |-> IF k = t THEN x ELSE kv[k]]

Set == 10
Get == 11
Append2 == 20
Length == 21
Echo == 100
\* << the value afterwards, the answer >>
Meaning(e) ==
    CASE e.c = Set -> LET v == Grow(<<>>, e.f, e.n) IN << With(e.t, v), [k |-> 0, r |-> << v >>, n |-> 0] >>
      [] e.c = Append2 -> LET v == Grow(IF Has(e.t) THEN kv[e.t] ELSE <<>>, e.f, e.n)
                          IN << With(e.t, v), [k |-> 0, r |-> << v >>, n |-> 0] >>
      [] e.c = Get -> << kv, IF Has(e.t) THEN [k |-> 0, r |-> << kv[e.t] >>, n |-> 0] ELSE [k |-> 3, r |-> <<>>, n |-> 5] >>
      [] e.c = Length -> << kv, IF Has(e.t) THEN [k |-> 2, r |-> <<>>, n |-> Size(kv[e.t])] ELSE [k |-> 3, r |-> <<>>, n |-> 5] >>
      [] e.c = Echo -> << kv, [k |-> 1, r |-> << Grow(<<>>, e.f, e.n) >>, n |-> 0] >>
      [] OTHER -> << kv, [k |-> -1, r |-> <<>>, n |-> 0] >>

Init == h \in 1..Len(Hist) /\ i = 1 /\ kv = <<>> /\ ok = TRUE
Step ==
    LET e == Ev[i]
        m == Meaning(e)
        good == m[2].k = e.o.k /\ m[2].r = e.o.r /\ (m[2].n = e.o.n \/ (e.o.k = 3 /\ e.o.n = -1))
    IN /\ ok /\ i <= Len(Ev)
       /\ i' = i + 1 /\ kv' = m[1] /\ ok' = good
       /\ ~good => PrintT(<< "REJ", Hist[h].id, i >>) /\ PrintT(<< "WANT", Hist[h].id, m[2] >>)
       /\ (good /\ i = Len(Ev) /\ Hist[h].up = 1) => PrintT(<< "ACC", Hist[h].id, i >>)
       /\ UNCHANGED h
Spec == Init /\ [][Step]_vars
=============================================================================
