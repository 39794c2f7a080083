------------------------------- MODULE Listen -------------------------------
(* Where a server listens, given its surroundings: HOST is the text of an     *)
(* address and PORT that of a number of 16 bits. What is missing or isn't one *)
(* is 0.0.0.0 and 46733. Texts are byte sequences; {} stands for "isn't one". *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DefaultHost == << 0, 0, 0, 0 >>
DefaultPort == 46733

Dot == 46
Colon == 58
Plus == 43
IsDigit(b) == b \in 48..57
HexOf(b) == CASE b \in 48..57 -> b - 48 [] b \in 97..102 -> b - 87 [] b \in 65..70 -> b - 55 [] OTHER -> -1

RECURSIVE Value(_, _, _)
\* The number the digits spell, or most if that is too much.
Value(s, base, most) ==
    IF s = <<>> THEN 0
    ELSE LET n == Value(SubSeq(s, 1, Len(s) - 1), base, most) * base + HexOf(s[Len(s)])
         IN IF n > most THEN most ELSE n

\* The pieces between separators.
Pieces(s, sep) ==
    LET at == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = sep)
        n == Len(at) + 1
    IN [i \in 1..n |-> SubSeq(s, IF i = 1 THEN 1 ELSE at[i - 1] + 1, IF i = n THEN Len(s) ELSE at[i] - 1)]

(* -------------------------------- ports ---------------------------------- *)
PortOf(s) ==
    LET u == IF s # <<>> /\ s[1] = Plus THEN Tail(s) ELSE s
    IN IF u = <<>> \/ \E i \in 1..Len(u) : ~IsDigit(u[i]) THEN {}
       ELSE LET n == Value(u, 10, 65536) IN IF n > 65535 THEN {} ELSE {n}

(* ------------------------------- addresses ------------------------------- *)
\* Whether numbers in an address may begin with a zero isn't specified, and no
\* such address is tried.
Part(s) == /\ Len(s) \in 1..3
           /\ \A i \in 1..Len(s) : IsDigit(s[i])
           /\ Value(s, 10, 256) <= 255
V4Of(s) ==
    LET p == Pieces(s, Dot)
    IN IF Len(p) = 4 /\ \A i \in 1..4 : Part(p[i]) THEN {[i \in 1..4 |-> Value(p[i], 10, 256)]} ELSE {}

Group(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : HexOf(s[i]) >= 0
TwoBytes(s) == LET n == Value(s, 16, 65536) IN << n \div 256, n % 256 >>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
\* Groups between colons, the last of which may be an address of four bytes
\* if `end`.
Groups(s, end) ==
    IF s = <<>> THEN {<<>>}
    ELSE LET p == Pieces(s, Colon)
             n == Len(p)
             four == end /\ V4Of(p[n]) # {}
         IN IF \A i \in 1..n : Group(p[i]) \/ (i = n /\ four)
            THEN {Flat([i \in 1..n |-> IF i = n /\ four THEN CHOOSE x \in V4Of(p[n]) : TRUE ELSE TwoBytes(p[i])])}
            ELSE {}
\* Where there are two colons in a row.
Gaps(s) == {i \in 1..(Len(s) - 1) : s[i] = Colon /\ s[i + 1] = Colon}
V6Of(s) ==
    IF Gaps(s) = {} THEN {b \in Groups(s, TRUE) : Len(b) = 16}
    ELSE IF Cardinality(Gaps(s)) > 1 THEN {}
    ELSE LET g == CHOOSE g \in Gaps(s) : TRUE
         IN {b : b \in UNION {{x \o [i \in 1..(16 - Len(x) - Len(y)) |-> 0] \o y
                                 : y \in {z \in Groups(SubSeq(s, g + 2, Len(s)), TRUE) : Len(x) + Len(z) <= 14}}
                              : x \in Groups(SubSeq(s, 1, g - 1), FALSE)}}

AddressOf(s) == V4Of(s) \cup V6Of(s)

\* What a server is told: {} or {text}.
Host(h) == LET a == UNION {AddressOf(x) : x \in h} IN IF a = {} THEN DefaultHost ELSE CHOOSE x \in a : TRUE
Port(p) == LET n == UNION {PortOf(x) : x \in p} IN IF n = {} THEN DefaultPort ELSE CHOOSE x \in n : TRUE

\* Addresses that every machine has: its own and that of all of them. Others
\* may be refused, and so may the versions of them of six.
Sure(a) == Len(a) = 4 /\ ((a[1] = 127 /\ a # << 127, 255, 255, 255 >>) \/ a = DefaultHost)
\* Ports that need a privilege may be refused.
Free(n) == n = 0 \/ n >= 1024
=============================================================================
