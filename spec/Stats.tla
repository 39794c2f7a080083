------------------------------- MODULE Stats -------------------------------
(* What the four counters may be seen to be while requests run: each counts   *)
(* the requests (or sessions) of its kind, at some moment while they run.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* An event of a history raises the counter kind[e] (0: none), began when the
\* events before[e] had ended. A reading r of the counters is an event with
\* val[r], one number for each counter.
Counters == 1..4

\* For events 1..n:
CountedBefore(n, kind, before, r, c) == {e \in before[r] : kind[e] = c}
CountedMaybe(n, kind, before, r, c) == {e \in (1..n) \ {r} : kind[e] = c /\ r \notin before[e]}

InBounds(n, kind, before, val, r, c) ==
    /\ Cardinality(CountedBefore(n, kind, before, r, c)) <= val[r][c]
    /\ val[r][c] <= Cardinality(CountedMaybe(n, kind, before, r, c))

\* What ran between two readings shows in the later one.
Grows(n, kind, before, val, r, s, c) ==
    LET between == {e \in before[s] : kind[e] = c /\ r \in before[e]}
    IN r \in before[s] => val[r][c] + Cardinality(between) <= val[s][c]

Fits(n, kind, before, val, readings) ==
    \A r \in readings, c \in Counters :
        /\ InBounds(n, kind, before, val, r, c)
        /\ \A s \in readings : Grows(n, kind, before, val, r, s, c)
=============================================================================
