----------------------------- MODULE TraceResp -----------------------------
(* Checks what the real decoder and the real encoder did.                     *)
EXTENDS Resp, Json, IOUtils

\* A history has a stream of bytes; made, the responses it was made of; and ev,
\* the feeds: bytes s (exclusive) to e of the stream, and what came out.
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, ok
Ev == Hist[h].ev

\* A made response has k (1 value v, 2, 3 errors c), and the bytes s to e.
MadeWell(x) == \A j \in 1..Len(x.made) :
    LET q == x.made[j]
        b == SubSeq(x.stream, q.s + 1, q.e)
        d == Decode(b)
    IN /\ Len(b) = 4 + U32(b, 1) /\ d.r # 0 /\ d.n = Len(b) /\ ~d.dup
       /\ CASE q.k = 1 -> d.r = 1 /\ ValueIs(q, d) [] OTHER -> d.r = q.k /\ d.e = q.c
       /\ j = 1 => q.s = 0
       /\ j > 1 => q.s = x.made[j - 1].e

Good(x, e) ==
    LET b == SubSeq(x.stream, e.s + 1, e.e)
        whole == {j \in 1..Len(x.made) : x.made[j].s = e.s}
    IN /\ e.o.k \in 0..4
       /\ Allowed(b, e.o)
       /\ \A j \in whole : Asked(x.made[j].e - e.s, b, e.o)

\* Values too large to be written down: whether they come back the same.
Shape(x) == (Encodable(x.t, x.count, x.keylen, x.itemlen)) => x.same = 1 /\ x.early = 0 /\ x.greedy = 0

Init == h \in 1..Len(Hist) /\ i = 0 /\ ok = TRUE
Next == /\ ok /\ i <= Len(Ev) /\ UNCHANGED h /\ i' = i + 1
        /\ LET x == Hist[h]
               good == IF x.shape = 1 THEN Shape(x)
                       ELSE IF i = 0 THEN MadeWell(x) ELSE Good(x, Ev[i])
           IN /\ ok' = good
              /\ IF ~good
                 THEN /\ PrintT(<< "REJ", x.id, i >>)
                      /\ (x.shape = 0 /\ i > 0) =>
                           PrintT(<< "WANT", x.id, Decode(SubSeq(x.stream, Ev[i].s + 1, Ev[i].e)) >>)
                 ELSE i = Len(Ev) => PrintT(<< "ACC", x.id, i >>)
Spec == Init /\ [][Next]_<< h, i, ok >>
=============================================================================
