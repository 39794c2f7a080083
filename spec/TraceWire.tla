----------------------------- MODULE TraceWire -----------------------------
(* Checks what the real parser and the real builder did with recorded bytes.  *)
EXTENDS Wire, Json, IOUtils

\* A history has a stream of bytes, the requests it was made of (if it was), a
\* record ev of every feed: from byte s (exclusive) to byte e of the stream.
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, ok
Ev == Hist[h].ev

RECURSIVE Joined(_, _)
Joined(rs, j) == IF j > Len(rs) THEN <<>> ELSE Encode(rs[j]) \o Joined(rs, j + 1)

\* What the builders gave, and what they have to give.
MadeWell(x) == Len(x.made) > 0 => Joined(x.made, 1) = SubSeq(x.stream, 1, Len(Joined(x.made, 1)))

\* The arguments from one on: how many the iterator says are left, and which.
Iter(n) == [j \in 1..n + 1 |-> n + 1 - j]
Ranged(a, from) == LET n == IF from > Len(a) THEN 0 ELSE Len(a) - from
                   IN << Iter(n), SubSeq(a, from + 1, Len(a)) >>
Request(o, p, b) ==
    /\ o.c = p.c /\ o.t = p.k /\ o.a = p.a
    /\ o.n = p.n                          \* the bytes it claims
    /\ o.raw = 1                          \* are those of the buffer
    /\ o.cnt = Len(p.a)
    /\ o.past = 1                         \* nothing after the last argument
    /\ o.rg = (IF p.a = <<>> THEN <<>> ELSE [from \in 1..3 |-> Ranged(p.a, from - 1)])
    /\ o.ky = (IF p.a = <<>> \/ p.c \in {100, 101} THEN << >> ELSE << p.a[1] >>)

Good(e) ==
    LET b == SubSeq(Hist[h].stream, e.s + 1, e.e)
        p == Parse(b)
    IN CASE e.o.k = 0 -> p.r = 0
         [] e.o.k = 1 -> p.r = 1 /\ (e.o.e = p.e \/ Excused(b, e.o.e))
         [] e.o.k = 2 -> p.r = 2 /\ Request(e.o, p, b)
         [] OTHER -> FALSE

\* Requests of large arguments, of which only the lengths are kept.
Shape(x) ==
    LET total == EncodedLen(x.c, x.t, x.ls) IN
    /\ x.len = total
    /\ \A j \in 1..Len(x.ev) :
         LET f == x.ev[j] IN
         IF f.e < total THEN f.o.k = 0
         ELSE f.o.k = 2 /\ f.o.n = total /\ f.o.ls = x.ls /\ f.o.same = 1

Init == h \in 1..Len(Hist) /\ i = 0 /\ ok = TRUE
Next == /\ ok /\ i <= Len(Ev) /\ UNCHANGED h /\ i' = i + 1
        /\ LET x == Hist[h]
               good == IF x.shape = 1 THEN i = 0 => Shape(x)
                       ELSE IF i = 0 THEN MadeWell(x) ELSE Good(Ev[i])
           IN /\ ok' = good
              /\ IF ~good
                 THEN /\ PrintT(<< "REJ", x.id, i >>)
                      /\ (x.shape = 0 /\ i > 0) =>
                            PrintT(<< "WANT", x.id, Parse(SubSeq(x.stream, Ev[i].s + 1, Ev[i].e)) >>)
                 ELSE i = Len(Ev) => PrintT(<< "ACC", x.id, i >>)
Spec == Init /\ [][Next]_<< h, i, ok >>
=============================================================================
