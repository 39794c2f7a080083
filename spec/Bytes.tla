------------------------------- MODULE Bytes -------------------------------
(* Bytes as integers 0..255, byte strings as sequences of them; 64-bit        *)
(* two's complement integers and IEEE-754 doubles as 8-byte big-endian        *)
(* strings; UTF-8.                                                            *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(* ----------------------------- integers --------------------------------- *)
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
One8 == <<0, 0, 0, 0, 0, 0, 0, 1>>

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==      \* the sum of the bytes 1..i, with a carry into byte i
    IF i = 0 THEN <<>>
    ELSE LET s == a[i] + b[i] + carry
         IN AddFrom(a, b, i - 1, s \div 256) \o << s % 256 >>

Add64(a, b) == AddFrom(a, b, 8, 0)
Neg64(a) == Add64([i \in 1..8 |-> 255 - a[i]], One8)

\* A natural number below 2^31 as an integer key's value.
Nat8(n) == <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

(* ------------------------------ doubles --------------------------------- *)
Pow2 == [i \in 0..30 |-> 2^i]

FSign(x) == x[1] \div 128
FExp(x) == (x[1] % 128) * 16 + x[2] \div 16
\* The 52 mantissa bits as <<upper 27, lower 25>>.
FHi(x) == (x[2] % 16) * Pow2[23] + x[3] * Pow2[15] + x[4] * Pow2[7] + x[5] \div 2
FLo(x) == (x[5] % 2) * Pow2[24] + x[6] * Pow2[16] + x[7] * 256 + x[8]

FIsNaN(x) == FExp(x) = 2047 /\ (FHi(x) # 0 \/ FLo(x) # 0)
FIsInf(x) == FExp(x) = 2047 /\ FHi(x) = 0 /\ FLo(x) = 0
FNaN == <<127, 248, 0, 0, 0, 0, 0, 0>>
\* Every NaN is the same value to a user.
FCanon(x) == IF FIsNaN(x) THEN FNaN ELSE x

FPack(s, e, hi, lo) ==  \* hi: upper 27 bits of the mantissa, lo: lower 25
    << s * 128 + e \div 16,
       (e % 16) * 16 + hi \div Pow2[23],
       (hi \div Pow2[15]) % 256,
       (hi \div Pow2[7]) % 256,
       (hi % Pow2[7]) * 2 + lo \div Pow2[24],
       (lo \div Pow2[16]) % 256,
       (lo \div 256) % 256,
       lo % 256 >>

\* Magnitudes with three extra bits, as two limbs of 28 bits; the leading one of
\* a normal number is the top bit of the upper limb.
FMag(x) == << FHi(x) + (IF FExp(x) = 0 THEN 0 ELSE Pow2[27]), FLo(x) * 8 >>
FExp1(x) == IF FExp(x) = 0 THEN 1 ELSE FExp(x)

Sticky(lo, lost) == IF lost # 0 /\ lo % 2 = 0 THEN lo + 1 ELSE lo

ShiftRight(m, d) ==     \* keeping whether anything was shifted out in the last bit
    IF d = 0 THEN m
    ELSE IF d >= 56 THEN << 0, IF m[1] = 0 /\ m[2] = 0 THEN 0 ELSE 1 >>
    ELSE IF d < 28
    THEN << m[1] \div Pow2[d],
            Sticky((m[1] % Pow2[d]) * Pow2[28 - d] + m[2] \div Pow2[d], m[2] % Pow2[d]) >>
    ELSE << 0,
            Sticky(m[1] \div Pow2[d - 28],
                   IF m[2] # 0 THEN 1 ELSE m[1] % Pow2[d - 28]) >>

MagLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

MagAdd(a, b) == LET lo == a[2] + b[2]
                IN << a[1] + b[1] + lo \div Pow2[28], lo % Pow2[28] >>
MagSub(a, b) == IF a[2] >= b[2] THEN << a[1] - b[1], a[2] - b[2] >>
                ELSE << a[1] - b[1] - 1, a[2] + Pow2[28] - b[2] >>

RECURSIVE Normalise(_, _)
Normalise(m, e) ==      \* << magnitude, exponent >>
    IF m[1] >= Pow2[28] THEN << ShiftRight(m, 1), e + 1 >>
    ELSE IF m[1] >= Pow2[27] \/ e = 1 THEN << m, e >>
    ELSE Normalise(<< (m[1] * 2) + (m[2] \div Pow2[27]), (m[2] % Pow2[27]) * 2 >>, e - 1)

Round(s, m, e) ==       \* to nearest, ties to even
    LET grs == m[2] % 8
        lo0 == m[2] \div 8
        up == grs > 4 \/ (grs = 4 /\ lo0 % 2 = 1)
        lo1 == IF up THEN lo0 + 1 ELSE lo0
        lo == lo1 % Pow2[25]
        hi1 == m[1] + lo1 \div Pow2[25]
        over == hi1 >= Pow2[28]
        hi == IF over THEN Pow2[27] ELSE hi1
        e1 == IF over THEN e + 1 ELSE e
        ef == IF hi >= Pow2[27] THEN e1 ELSE 0
    IN IF ef >= 2047 THEN FPack(s, 2047, 0, 0)
       ELSE FPack(s, ef, hi % Pow2[27], lo)

FNeg(x) == [x EXCEPT ![1] = (x[1] + 128) % 256]

FAdd(x, y) ==
    IF FIsNaN(x) \/ FIsNaN(y) THEN FNaN
    ELSE IF FIsInf(x) THEN (IF FIsInf(y) /\ FSign(x) # FSign(y) THEN FNaN ELSE x)
    ELSE IF FIsInf(y) THEN y
    ELSE LET e == IF FExp1(x) > FExp1(y) THEN FExp1(x) ELSE FExp1(y)
             a == ShiftRight(FMag(x), e - FExp1(x))
             b == ShiftRight(FMag(y), e - FExp1(y))
             sx == FSign(x)
             sy == FSign(y)
         IN IF sx = sy
            THEN LET n == Normalise(MagAdd(a, b), e) IN Round(sx, n[1], n[2])
            ELSE IF a = b THEN Zero8
            ELSE LET d == IF MagLess(a, b) THEN MagSub(b, a) ELSE MagSub(a, b)
                     n == Normalise(d, e)
                 IN Round(IF MagLess(a, b) THEN sy ELSE sx, n[1], n[2])

FOne == <<63, 240, 0, 0, 0, 0, 0, 0>>

(* ------------------------------- UTF-8 ---------------------------------- *)
Cont(b) == b \in 128..191

RECURSIVE CharsFrom(_, _, _)
CharsFrom(s, i, n) ==   \* characters in s from position i, or -1 when invalid
    LET rest == Len(s) - i + 1
        b == s[i]
    IN IF rest = 0 THEN n
       ELSE IF b < 128 THEN CharsFrom(s, i + 1, n + 1)
       ELSE IF b \in 194..223
       THEN IF rest >= 2 /\ Cont(s[i + 1]) THEN CharsFrom(s, i + 2, n + 1) ELSE -1
       ELSE IF b \in 224..239
       THEN IF /\ rest >= 3 /\ Cont(s[i + 1]) /\ Cont(s[i + 2])
               /\ (b = 224 => s[i + 1] >= 160)      \* overlong
               /\ (b = 237 => s[i + 1] <= 159)      \* surrogates
            THEN CharsFrom(s, i + 3, n + 1) ELSE -1
       ELSE IF b \in 240..244
       THEN IF /\ rest >= 4 /\ Cont(s[i + 1]) /\ Cont(s[i + 2]) /\ Cont(s[i + 3])
               /\ (b = 240 => s[i + 1] >= 144)
               /\ (b = 244 => s[i + 1] <= 143)
            THEN CharsFrom(s, i + 4, n + 1) ELSE -1
       ELSE -1

\* The same by what is next to each byte, for long ones.
Lead(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3
           ELSE IF b \in 240..244 THEN 4 ELSE 0
Starts(s, i) ==     \* a whole character is at i
    LET b == s[i]
        w == Lead(b)
    IN /\ w > 0 /\ i + w - 1 <= Len(s)
       /\ \A k \in 1..w - 1 : Cont(s[i + k])
       /\ (b = 224 => s[i + 1] >= 160) /\ (b = 237 => s[i + 1] <= 159)
       /\ (b = 240 => s[i + 1] >= 144) /\ (b = 244 => s[i + 1] <= 143)
Within(s, i) ==     \* what is at i belongs to the character that starts before it
    \E k \in 1..3 : /\ k < i /\ Lead(s[i - k]) > k
                    /\ \A m \in 1..k - 1 : Cont(s[i - m])
CharsAll(s) ==
    IF \A i \in 1..Len(s) : IF Cont(s[i]) THEN Within(s, i) ELSE Starts(s, i)
    THEN Cardinality({i \in 1..Len(s) : ~Cont(s[i])}) ELSE -1

\* All ASCII: no need to step through.
Chars(s) == IF \A i \in DOMAIN s : s[i] < 128 THEN Len(s)
            ELSE IF Len(s) > 64 THEN CharsAll(s) ELSE CharsFrom(s, 1, 0)
IsUtf8(s) == Chars(s) >= 0
=============================================================================
