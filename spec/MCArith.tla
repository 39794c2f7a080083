------------------------------- MODULE MCArith -------------------------------
(* Every sum and difference of a pool of integers and of a pool of floats, by  *)
(* every way there is of asking for it: properties of the arithmetic, checked  *)
(* without the definitions of Bytes where there is another way to say them,    *)
(* and every one of them printed for replay in the real code.                  *)
EXTENDS Hop, Json, IOUtils

a == <<97>>
b == <<98>>
Pad(n) == [j \in 1..n |-> 0]
Full(x, n) == [j \in 1..n |-> x]

Ints == { Zero8, One8, Full(255, 8), Pad(7) \o <<2>>, Full(255, 7) \o <<254>>, <<127>> \o Full(255, 7), <<128>> \o Pad(7),
          <<127>> \o Full(255, 6) \o <<254>>, <<128>> \o Pad(6) \o <<1>>, Pad(6) \o <<1, 0>>, Pad(7) \o <<255>>,
          Pad(4) \o Full(255, 4), Pad(3) \o <<1>> \o Pad(4), Full(255, 4) \o Pad(4), Full(255, 6) \o <<1, 0>>,
          <<64>> \o Pad(7), <<192>> \o Pad(7), Pad(3) \o <<0, 128, 0, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>> }
F(s, x, rest) == << s * 128 + x \div 16, (x % 16) * 16 + rest[1] >> \o SubSeq(rest, 2, 7)
Magnitudes ==
    { Pad(8),                                   \* 0
      F(0, 0, Pad(6) \o <<1>>),                 \* the smallest
      F(0, 0, <<15>> \o Full(255, 6)),          \* the largest subnormal
      F(0, 0, <<8>> \o Pad(6)),
      F(0, 1, Pad(7)),                          \* the smallest normal
      F(0, 1, Pad(6) \o <<1>>),
      F(0, 52, Pad(7)), F(0, 53, Pad(7)), F(0, 54, Pad(6) \o <<1>>),
      F(0, 1023, Pad(7)),                       \* 1
      F(0, 1023, Pad(6) \o <<1>>),
      F(0, 1022, <<15>> \o Full(255, 6)),       \* just below 1
      F(0, 1023, <<8>> \o Pad(6)),              \* 1.5
      F(0, 970, Pad(7)), F(0, 970, Pad(6) \o <<1>>), F(0, 971, Pad(7)), F(0, 969, <<15>> \o Full(255, 6)),
      F(0, 1019, <<9, 153, 153, 153, 153, 153, 154>>),     \* 0.1
      F(0, 1020, <<9, 153, 153, 153, 153, 153, 154>>),     \* 0.2
      F(0, 1075, Pad(7)), F(0, 1075, Pad(6) \o <<1>>), F(0, 1076, Pad(7)), F(0, 1076, Pad(6) \o <<1>>),
      F(0, 1074, <<15>> \o Full(255, 6)),
      F(0, 2046, <<15>> \o Full(255, 6)),       \* the largest
      F(0, 2045, <<15>> \o Full(255, 6)),
      F(0, 2046, Pad(7)),
      F(0, 1993, Pad(7)), F(0, 1992, Pad(7)), F(0, 1992, Pad(6) \o <<1>>), F(0, 1992, <<15>> \o Full(255, 6)),
      F(0, 2047, Pad(7)) }                      \* infinity
Floats == Magnitudes \cup { [m EXCEPT ![1] = @ + 128] : m \in Magnitudes } \cup { F(0, 2047, <<8>> \o Pad(6)) }

VARIABLES x, y, how, r, res
vars == << x, y, how, r, res >>

\* how: << the command, the request's type, the store's: 0 none, 1 a has x >>.
IntWays == { << c, k, 1 >> : c \in {CIncBy, CDecBy}, k \in {NoType, KInt} }
           \cup { << c, k, 1 >> : c \in {CInc, CDec}, k \in {NoType, KInt} }
           \cup { << c, k, 0 >> : c \in {CIncBy, CDecBy}, k \in {NoType, KInt, KString, KBool} }
FloatWays == { << c, k, 1 >> : c \in {CIncBy, CDecBy}, k \in {NoType, KFloat} }
             \cup { << c, k, 1 >> : c \in {CInc, CDec}, k \in {NoType, KFloat} }
             \cup { << c, KFloat, 0 >> : c \in {CIncBy, CDecBy} }

KvJ(f) == { << k, f[k].t, f[k].v >> : k \in DOMAIN f }
FCanonOf(t, z) == IF t = KFloat THEN FCanon(z) ELSE z
Store(w, z) == IF w[3] = 0 THEN NoKeys ELSE (a :> V(w[4], FCanonOf(w[4], z)))
ArgsOf(w, z) == IF w[1] \in {CInc, CDec} THEN << a >> ELSE << a, z >>

\* The first operand's steps follow from it, so that the pool is walked evenly.
Init == /\ \/ x \in Ints /\ how = << 0, 0, 0, KInt >>
           \/ x \in Floats /\ how = << 0, 0, 0, KFloat >>
        /\ y = <<>> /\ r = <<>> /\ res = <<>>
Ways(t) == IF t = KInt THEN IntWays ELSE FloatWays
Next == /\ y = <<>>
        /\ \E w \in Ways(how[4]), z \in (IF how[4] = KInt THEN Ints ELSE Floats) :
             /\ (w[1] \in {CInc, CDec} => z = x)
             \* -0 - 0: whose sign of zero comes of it is nobody's concern.
             /\ ~(w[1] = CDecBy /\ how[4] = KFloat /\ z = Pad(8) /\ x = [Pad(8) EXCEPT ![1] = 128])
             /\ (w[3] = 0 => x = (IF how[4] = KInt THEN Zero8 ELSE Pad(8)))
             /\ how' = w \o << how[4] >>
             /\ y' = z
             /\ r' = [c |-> w[1], k |-> w[2], a |-> ArgsOf(w, z)]
             /\ res' = OnKeys(Store(how', x), r')
             /\ PrintT(ToJson(<< KvJ(Store(how', x)), << r'.c, r'.k, r'.a >>,
                    (IF res'.k = 0 THEN << 0, res'.v.t, res'.v.v >> ELSE << 1, res'.e >>), KvJ(res'.kv) >>))
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

Done == y # <<>>
Operand == IF how[1] \in {CInc, CDec} THEN (IF how[4] = KInt THEN One8 ELSE FOne) ELSE y
Start == IF how[3] = 1 THEN x ELSE Pad(8)
Minus == how[1] \in {CDec, CDecBy}
Outcome == res.v.v

AlwaysCounts == Done => res.k = 0 /\ res.v.t = how[4]

\* Integers: the sum minus an operand is the other, by a subtraction that borrows.
RECURSIVE Borrow(_, _, _, _)
Borrow(p, q, j, c) == IF j = 0 THEN <<>>
                      ELSE LET d == p[j] - q[j] - c
                           IN Borrow(p, q, j - 1, IF d < 0 THEN 1 ELSE 0) \o << IF d < 0 THEN d + 256 ELSE d >>
IntExact == Done /\ how[4] = KInt =>
    IF Minus THEN Outcome = Borrow(Start, Operand, 8, 0) ELSE Borrow(Outcome, Operand, 8, 0) = Start

\* Floats.
Neg(f) == [f EXCEPT ![1] = (@ + 128) % 256]
IsNaN(f) == f[1] % 128 = 127 /\ f[2] >= 240 /\ (f[2] > 240 \/ \E j \in 3..8 : f[j] # 0)
IsInf(f) == f[1] % 128 = 127 /\ f[2] = 240 /\ \A j \in 3..8 : f[j] = 0
IsZero(f) == f[1] % 128 = 0 /\ \A j \in 2..8 : f[j] = 0
Same(f, g) == FCanon(f) = FCanon(g)
\* The order of floats that are numbers, bytewise.
Key(f) == IF f[1] >= 128 THEN [j \in 1..8 |-> 255 - f[j]] ELSE [f EXCEPT ![1] = @ + 128]
RECURSIVE LeqFrom(_, _, _)
LeqFrom(p, q, j) == j > 8 \/ p[j] < q[j] \/ (p[j] = q[j] /\ LeqFrom(p, q, j + 1))
FLeq(f, g) == (IsZero(f) /\ IsZero(g)) \/ LeqFrom(Key(f), Key(g), 1)
Second == IF Minus THEN Neg(Operand) ELSE Operand

FloatLaws == Done /\ how[4] = KFloat =>
    /\ Same(Outcome, FAdd(Second, Start))                                    \* commutes
    /\ IsNaN(Outcome) <=> \/ IsNaN(Start) \/ IsNaN(Second)
                      \/ (IsInf(Start) /\ IsInf(Second) /\ Start # Second)
    /\ (~IsNaN(Outcome) => Same(Neg(Outcome), FAdd(Neg(Start), Neg(Second))) \/ IsZero(Outcome))     \* symmetric
    /\ (IsZero(Second) /\ ~IsZero(Start) => Same(Outcome, Start))
    /\ (IsZero(Start) /\ IsZero(Second) => IsZero(Outcome) /\ ((Outcome[1] = 128) <=> (Start[1] = 128 /\ Second[1] = 128)))
    /\ (~IsNaN(Outcome) /\ ~IsNaN(Second) /\ Second[1] < 128 => FLeq(Start, Outcome))            \* monotone
    /\ (~IsNaN(Outcome) /\ ~IsNaN(Second) /\ Second[1] >= 128 => FLeq(Outcome, Start))
    /\ (Start = Neg(Second) /\ ~IsNaN(Start) /\ ~IsInf(Start) => Outcome = Pad(8))
=============================================================================
