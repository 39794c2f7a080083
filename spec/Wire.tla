-------------------------------- MODULE Wire --------------------------------
(* The bytes of requests: what a request is encoded as, what a byte string     *)
(* parses as, and the parser as a machine that is fed growing buffers.         *)
EXTENDS Bytes, TLC

CmdIds == {0, 1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 20, 21, 22, 100, 101}
CmdStats == 101     \* the one command without arguments
TypeIds == 0..7
NoType == -1

CommandInvalid == 0
TypeInvalid == 1

Huge == 1073741824
\* A 32-bit number at position p, as far as TLC can count.
U32(b, p) == IF b[p] >= 64 THEN Huge ELSE b[p] * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
Bytes32(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

(* Encoding. A request has a command c, a type k and arguments a.             *)
Head1(r) == IF r.k = NoType THEN << r.c >> ELSE << r.c + 128, r.k >>
RECURSIVE Args(_, _)
Args(a, i) == IF i > Len(a) THEN <<>> ELSE Bytes32(Len(a[i])) \o a[i] \o Args(a, i + 1)
Encode(r) == Head1(r) \o (IF r.c = CmdStats THEN <<>> ELSE << Len(r.a) >> \o Args(r.a, 1))

RECURSIVE SumLens(_, _)
SumLens(ls, i) == IF i > Len(ls) THEN 0 ELSE 4 + ls[i] + SumLens(ls, i + 1)
\* The length of an encoding, given the lengths of the arguments.
EncodedLen(c, k, ls) == (IF k = NoType THEN 1 ELSE 2) + (IF c = CmdStats THEN 0 ELSE 1 + SumLens(ls, 1))

(* Parsing a whole byte string: [r, ...] with r 0 more, 1 error e, 2 request. *)
More == [r |-> 0]
Bad(e) == [r |-> 1, e |-> e]
RECURSIVE ArgEnds(_, _, _, _)
\* The ends of n arguments, the first of which starts after position p; <<>> if they aren't all there.
ArgEnds(b, p, n, acc) ==
    IF n = 0 THEN << TRUE, acc >>
    ELSE IF Len(b) < p + 4 THEN << FALSE, acc >>
    ELSE LET end == p + 4 + U32(b, p + 1)
         IN IF Len(b) < end THEN << FALSE, acc >> ELSE ArgEnds(b, end, n - 1, Append(acc, end))

Parse(b) ==
    IF b = <<>> THEN More
    ELSE LET typed == b[1] >= 128
             c == b[1] % 128
             hd == IF typed THEN 2 ELSE 1
         IN IF typed /\ Len(b) < 2 THEN More
            ELSE IF typed /\ b[2] \notin TypeIds THEN Bad(TypeInvalid)
            ELSE IF c \notin CmdIds THEN Bad(CommandInvalid)
            ELSE LET k == IF typed THEN b[2] ELSE NoType IN
                 IF c = CmdStats THEN [r |-> 2, c |-> c, k |-> k, a |-> <<>>, n |-> hd]
                 ELSE IF Len(b) < hd + 1 THEN More
                 ELSE LET q == ArgEnds(b, hd + 1, b[hd + 1], <<>>)
                          ends == q[2]
                          from(i) == (IF i = 1 THEN hd + 1 ELSE ends[i - 1]) + 5
                      IN IF ~q[1] THEN More
                         ELSE [r |-> 2, c |-> c, k |-> k,
                               a |-> [i \in 1..Len(ends) |-> SubSeq(b, from(i), ends[i])],
                               n |-> IF ends = <<>> THEN hd + 1 ELSE Last(ends)]

\* Both errors are right when neither the command nor the type is known.
Excused(b, e) == /\ Len(b) >= 1
                 /\ \/ e = CommandInvalid /\ b[1] % 128 \notin CmdIds
                    \/ e = TypeInvalid /\ b[1] >= 128 /\ Len(b) >= 2 /\ b[2] \notin TypeIds

(* The parser as a machine: what it keeps between buffers is how far it got.  *)
Fresh == [stage |-> 0, idx |-> 0, left |-> 0, c |-> 0, k |-> NoType, ends |-> <<>>]
Result(m, b) == [r |-> 2, c |-> m.c, k |-> m.k,
                 a |-> [i \in 1..Len(m.ends) |->
                          SubSeq(b, (IF i = 1 THEN (IF m.k = NoType THEN 2 ELSE 3) ELSE m.ends[i - 1]) + 5, m.ends[i])],
                 n |-> m.idx]
RECURSIVE Feed(_, _)
Feed(m, b) ==       \* << machine, outcome >>
    IF Len(b) < m.idx THEN << m, More >>
    ELSE CASE m.stage = 0 ->
             IF b = <<>> THEN << m, More >>
             ELSE LET typed == b[1] >= 128
                      c == b[1] % 128
                  IN IF typed /\ Len(b) < 2 THEN << m, More >>
                     ELSE IF typed /\ b[2] \notin TypeIds THEN << m, Bad(TypeInvalid) >>
                     ELSE IF c \notin CmdIds THEN << m, Bad(CommandInvalid) >>
                     ELSE LET m1 == [m EXCEPT !.stage = 1, !.idx = IF typed THEN 2 ELSE 1,
                                              !.c = c, !.k = IF typed THEN b[2] ELSE NoType]
                          IN IF c = CmdStats THEN << Fresh, Result(m1, b) >> ELSE Feed(m1, b)
         [] m.stage = 1 ->
             IF Len(b) <= m.idx THEN << m, More >>
             ELSE LET m1 == [m EXCEPT !.stage = 2, !.idx = @ + 1, !.left = b[m.idx + 1]]
                  IN IF m1.left = 0 THEN << Fresh, Result(m1, b) >> ELSE Feed(m1, b)
         [] OTHER ->
             IF Len(b) < m.idx + 4 THEN << m, More >>
             ELSE LET end == m.idx + 4 + U32(b, m.idx + 1)
                  IN IF Len(b) < end THEN << m, More >>
                     ELSE LET m1 == [m EXCEPT !.idx = end, !.left = @ - 1, !.ends = Append(@, end)]
                          IN IF m1.left = 0 THEN << Fresh, Result(m1, b) >> ELSE Feed(m1, b)
=============================================================================
