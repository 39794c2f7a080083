------------------------------ MODULE Builder ------------------------------
(* The request builder: what it accepts, what it refuses and as what, and what *)
(* request it amounts to.                                                      *)
EXTENDS Resp
CONSTANT Max        \* how many arguments there can be

New(c, t) == [c |-> c, t |-> t, a |-> <<>>]

EmptyArgument == 1
TooMany == 2
EmptyValue == 3

Room(s) == IF s.c = CmdStats THEN 0 ELSE Max - Len(s.a)

\* The arguments a value is written down as: the first, or how many in any order.
Scalar(v) == v.t \in 0..4
RECURSIVE Flat(_, _)
Flat(ps, i) == IF i > Len(ps) THEN <<>> ELSE << ps[i][1], ps[i][2] >> \o Flat(ps, i + 1)
Size(v) == CASE Scalar(v) -> 1 [] v.t = 6 -> 2 * Len(v.v) [] OTHER -> Len(v.v)
HasEmpty(v) == CASE Scalar(v) -> v.v = <<>>
                 [] v.t = 6 -> \E p \in Range(v.v) : p[1] = <<>> \/ p[2] = <<>>
                 [] OTHER -> \E x \in Range(v.v) : x = <<>>
IsEmpty(v) == Size(v) = 0 \/ HasEmpty(v)

Pairs2(a) == {<< a[2 * i - 1], a[2 * i] >> : i \in 1..Len(a) \div 2}
Writes(v, added) ==
    CASE v.t = 2 -> Len(added) = 1 /\ FCanon(added[1]) = v.v
      [] v.t \in {0, 1, 3, 4} -> added = << v.v >>
      [] v.t = 5 -> added = v.v
      [] v.t = 7 -> Len(added) = Len(v.v) /\ Range(added) = Range(v.v)
      [] v.t = 6 -> Len(added) = 2 * Len(v.v) /\ Pairs2(added) = Range(v.v)

\* What an addition can be refused as; nothing: it is accepted.
Refusals(s, op, b, v) ==
    CASE op = 1 -> (IF b = <<>> THEN {EmptyArgument} ELSE {}) \cup (IF Room(s) < 1 THEN {TooMany} ELSE {})
      [] op = 2 -> (IF IsEmpty(v) THEN {EmptyValue} ELSE {})
                   \cup (IF ~Scalar(v) /\ HasEmpty(v) THEN {EmptyArgument} ELSE {})
                   \cup (IF Room(s) < Size(v) THEN {TooMany} ELSE {})

WellFormed(s) ==
    /\ Len(s.a) <= (IF s.c = CmdStats THEN 0 ELSE Max)
    /\ \A x \in Range(s.a) : x # <<>>
Reads(s, b) == LET p == Parse(b) IN p.r = 2 /\ p.c = s.c /\ p.k = s.t /\ p.a = s.a /\ p.n = Len(b)
\* The arguments of a range: b is how it starts (0: at the first, 1: at, 2: after) and
\* where, and how it ends (0: with the last, 1: with, 2: before) and where.
From(b) == CASE b[1] = 0 -> 0 [] b[1] = 1 -> b[2] [] OTHER -> b[2] + 1
To(b, n) == LET e == CASE b[3] = 0 -> n [] b[3] = 1 -> b[4] + 1 [] OTHER -> b[4] IN IF e > n THEN n ELSE e
Ranged(s, b) == SubSeq(s.a, From(b) + 1, To(b, Len(s.a)))
Encoded(s) == Encode([c |-> s.c, k |-> s.t, a |-> s.a])
=============================================================================
