------------------------------ MODULE MCListen ------------------------------
(* Laws of the texts: what is written is read back, and nothing else is.      *)
EXTENDS Listen

RECURSIVE Text(_)
Text(n) == IF n < 10 THEN << 48 + n >> ELSE Text(n \div 10) \o << 48 + (n % 10) >>
RECURSIVE Hex(_)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(n) == IF n < 16 THEN << HexDigit(n) >> ELSE Hex(n \div 16) \o << HexDigit(n % 16) >>

Octets == {0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 255}
Words == {0, 1, 15, 16, 255, 256, 4095, 4096, 43981, 65535}
Pairs == {<< a, b >> : a \in Words, b \in Words}

VARIABLES kind, x, y
vars == << kind, x, y >>
Init == \/ kind = "port" /\ x \in 0..70000 /\ y = 0
        \/ kind = "four" /\ x \in [1..2 -> Octets] /\ y \in [1..2 -> Octets]
        \/ kind = "six" /\ x \in Pairs /\ y \in 0..6
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Dotted(o) == Text(o[1]) \o << Dot >> \o Text(o[2]) \o << Dot >> \o Text(o[3]) \o << Dot >> \o Text(o[4])
Bytes2(w) == << w \div 256, w % 256 >>
Zeros(n) == [i \in 1..n |-> 0]
\* Eight groups: the first, some that are 0, and the last.
Long(w, v) == Hex(w) \o Flat([i \in 1..6 |-> << Colon, 48 >>]) \o << Colon >> \o Hex(v)
Short(w, v) == Hex(w) \o << Colon, Colon >> \o Hex(v)

PortsAreReadBack == kind = "port" =>
    /\ PortOf(Text(x)) = (IF x > 65535 THEN {} ELSE {x})
    /\ PortOf(<< Plus >> \o Text(x)) = PortOf(Text(x))
    /\ PortOf(<< 48 >> \o Text(x)) = PortOf(Text(x))
    /\ PortOf(<< 45 >> \o Text(x)) = {} /\ PortOf(Text(x) \o << 32 >>) = {}
    /\ Port({Text(x)}) = IF x > 65535 THEN DefaultPort ELSE x
FoursAreReadBack == kind = "four" =>
    LET o == x \o y
    IN /\ AddressOf(Dotted(o)) = {o}
       /\ AddressOf(Dotted(o) \o << Dot >>) = {} /\ AddressOf(<< 32 >> \o Dotted(o)) = {}
       /\ AddressOf(Dotted(o) \o << 48, 48, 48 >>) = {}
       /\ V6Of(<< Colon, Colon >> \o Dotted(o)) = {Zeros(12) \o o}
       /\ Host({}) = DefaultHost /\ Host({Dotted(o)}) = o
SixesAreReadBack == kind = "six" =>
    LET b == Bytes2(x[1]) \o Zeros(12) \o Bytes2(x[2])
    IN /\ AddressOf(Long(x[1], x[2])) = {b} /\ AddressOf(Short(x[1], x[2])) = {b}
       /\ AddressOf(<< Colon >> \o Long(x[1], x[2])) = {} /\ AddressOf(Long(x[1], x[2]) \o << Colon >>) = {}
       /\ AddressOf(Short(x[1], x[2]) \o << Colon, Colon >>) = {}
       /\ AddressOf(Long(x[1], x[2]) \o << Colon, 48 >>) = {}
       /\ AddressOf(SubSeq(Long(x[1], x[2]), 1, Len(Hex(x[1])) + 2 * y)) = {}
=============================================================================
