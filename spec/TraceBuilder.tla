---------------------------- MODULE TraceBuilder ----------------------------
(* Checks what real builders did.                                             *)
EXTENDS Builder, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, ok, s
Ev == Hist[h].ev

Looks(o, q) == /\ o.c = q.c /\ o.t = q.t /\ o.bc = q.c /\ o.bt = q.t
               /\ o.cnt = Len(q.a)
               /\ o.it = (IF q.a = <<>> THEN -1 ELSE Len(q.a))
               /\ o.keep = 1
               /\ o.len = EncodedLen(q.c, q.t, [j \in 1..Len(q.a) |-> Len(q.a[j])])
Same(o) == o.add = <<>> /\ o.same = 1

\* Whether an event is right, and what the builder is afterwards.
Step(e) ==
    CASE e.op = 9 -> << FALSE, s >>
      [] e.op = 0 -> << e.o.r = 0 /\ Looks(e.o, s) /\ e.o.add = <<>>, s >>
      [] e.op = 3 -> << e.o.r = 0 /\ Looks(e.o, s) /\ Same(e.o), s >>
      [] e.op = 6 ->
           LET want == Ranged(s, e.b)
           IN << IF s.a = <<>> THEN e.o.r = 1
                 ELSE /\ e.o.r = 0 /\ e.o.a = want
                      /\ e.o.l = [j \in 1..Len(want) + 1 |-> Len(want) + 1 - j], s >>
      [] e.op = 5 -> << e.b = Encoded(s) /\ Reads(s, e.b), s >>
      [] OTHER ->
           LET v == IF e.op = 2 THEN e.v ELSE [t |-> 0, v |-> <<>>]
               no == Refusals(s, e.op, e.b, v)
               n == [s EXCEPT !.a = @ \o e.o.add]
           IN IF no # {} THEN << e.o.r \in no /\ Looks(e.o, s) /\ Same(e.o), s >>
              ELSE << /\ e.o.r = 0 /\ Looks(e.o, n)
                      /\ IF e.op = 1 THEN e.o.add = << e.b >> ELSE Writes(v, e.o.add), n >>

Init == h \in 1..Len(Hist) /\ i = 0 /\ ok = TRUE /\ s = New(Hist[h].c, Hist[h].t)
Next == /\ ok /\ i < Len(Ev) /\ UNCHANGED h /\ i' = i + 1
        /\ LET q == Step(Ev[i + 1])
           IN /\ ok' = q[1] /\ s' = q[2]
              /\ IF ~q[1] THEN PrintT(<< "REJ", Hist[h].id, i + 1 >>)
                 ELSE i + 1 = Len(Ev) => PrintT(<< "ACC", Hist[h].id, i + 1 >>)
Spec == Init /\ [][Next]_<< h, i, ok, s >>
=============================================================================
