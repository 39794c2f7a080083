------------------------------ MODULE MCStats ------------------------------
(* Clients whose requests take effect, are counted and end at three moments,  *)
(* and whose readings of the counters take one moment for each counter: all   *)
(* that they can see is what Stats allows.                                    *)
EXTENDS Stats

CONSTANTS N, Plan
ASSUME Plan \in [1..N -> {1, 2, 3, 9}]   \* 9: a reading, which is a request too

Kind == [e \in 1..N |-> IF Plan[e] = 9 THEN 1 ELSE Plan[e]]
Reading == {e \in 1..N : Plan[e] = 9}

VARIABLES pc, before, count, val, plan

\* 0 not begun, 1 running, 2 counted, 3 ended; a reading also collects.
Init == /\ pc = [e \in 1..N |-> 0]
        /\ before = [e \in 1..N |-> {}]
        /\ count = [c \in Counters |-> 0]
        /\ val = [e \in 1..N |-> [c \in Counters |-> -1]]
        /\ plan = 0

Begin(e) == /\ pc[e] = 0
            /\ before' = [before EXCEPT ![e] = {x \in 1..N : pc[x] = 3}]
            /\ pc' = [pc EXCEPT ![e] = 1]
            /\ UNCHANGED << count, val >>
Collect(e) == /\ pc[e] = 1 /\ e \in Reading
              /\ \E c \in Counters : val[e][c] = -1 /\ val' = [val EXCEPT ![e][c] = count[c]]
              /\ UNCHANGED << count, before, pc >>
Count(e) == /\ pc[e] = 1
            /\ e \in Reading => \A c \in Counters : val[e][c] # -1
            /\ count' = [count EXCEPT ![Kind[e]] = @ + 1]
            /\ pc' = [pc EXCEPT ![e] = 2]
            /\ UNCHANGED << before, val >>
End(e) == /\ pc[e] = 2
          /\ pc' = [pc EXCEPT ![e] = 3]
          /\ UNCHANGED << before, count, val >>

Next == (\E e \in 1..N : Begin(e) \/ Collect(e) \/ Count(e) \/ End(e)) /\ UNCHANGED plan
Spec == Init /\ [][Next]_<< pc, before, count, val, plan >>

AllEnded == \A e \in 1..N : pc[e] = 3
Sound == AllEnded => Fits(N, Kind, before, val, Reading)
Exact == AllEnded => \A c \in Counters : count[c] = Cardinality({e \in 1..N : Kind[e] = c})
NeverBack == [][\A c \in Counters : count'[c] >= count[c]]_count
=============================================================================
