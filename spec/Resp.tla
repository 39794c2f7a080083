-------------------------------- MODULE Resp --------------------------------
(* The bytes of responses: what values and errors are encoded as, what a byte  *)
(* string decodes as, and which answers of a decoder are right.                *)
EXTENDS Wire

\* Value types of the store and of responses.
RBool == 0
RBytes == 1
RFloat == 2
RInt == 3
RList == 4
RMap == 5
RSet == 6
RString == 7
RParseError == 8
RDispatchError == 9
KindOf == [r \in 0..7 |-> CASE r = RBool -> 1 [] r = RBytes -> 0 [] r = RFloat -> 2 [] r = RInt -> 3
                             [] r = RList -> 5 [] r = RMap -> 6 [] r = RSet -> 7 [] r = RString -> 4]

DispatchErrors == 0..7
ParseErrors == 0..1
\* What a decoder reports.
DispatchErrorBad == 0
ParseErrorBad == 1
TypeBad == 3
StringBad == 4

U16(b, p) == b[p] * 256 + b[p + 1]
Num(b, p, w) == CASE w = 1 -> b[p] [] w = 2 -> U16(b, p) [] w = 4 -> U32(b, p)

Short == << FALSE, <<>>, 0 >>
RECURSIVE Items(_, _, _, _, _)
\* n items, each after its length in w bytes, from after position p.
Items(b, p, n, w, acc) ==
    IF n = 0 THEN << TRUE, acc, p >>
    ELSE IF Len(b) < p + w THEN Short
    ELSE LET end == p + w + Num(b, p + 1, w)
         IN IF Len(b) < end THEN Short
            ELSE Items(b, end, n - 1, w, Append(acc, SubSeq(b, p + w + 1, end)))
RECURSIVE Pairs(_, _, _, _)
Pairs(b, p, n, acc) ==
    IF n = 0 THEN << TRUE, acc, p >>
    ELSE LET k == Items(b, p, 1, 1, <<>>)
             v == Items(b, k[3], 1, 4, <<>>)
         IN IF ~k[1] THEN Short
            ELSE IF ~v[1] THEN Short
            ELSE Pairs(b, v[3], n - 1, Append(acc, << k[2][1], v[2][1] >>))

\* r: 0 more, 1 value of type t, 2 dispatch error e, 3 parse error e, 4 invalid
\* for reason e; n: where it ends; dup: whether a map or set says something twice.
RMore == [r |-> 0]
RVal(t, v, n) == [r |-> 1, t |-> KindOf[t], v |-> v, n |-> n, dup |-> FALSE]
RBad(e, n) == [r |-> 4, e |-> e, n |-> n, dup |-> FALSE]

\* Decoding by the payload alone.
Decode(b) ==
    IF Len(b) < 5 THEN RMore
    ELSE IF b[5] > RDispatchError THEN RBad(TypeBad, 5)
    ELSE CASE b[5] = RBool -> IF Len(b) < 6 THEN RMore ELSE RVal(RBool, << IF b[6] = 0 THEN 0 ELSE 1 >>, 6)
           [] b[5] = RParseError ->
                IF Len(b) < 6 THEN RMore
                ELSE IF b[6] \in ParseErrors THEN [r |-> 3, e |-> b[6], n |-> 6, dup |-> FALSE]
                ELSE RBad(ParseErrorBad, 6)
           [] b[5] = RDispatchError ->
                IF Len(b) < 6 THEN RMore
                ELSE IF b[6] \in DispatchErrors THEN [r |-> 2, e |-> b[6], n |-> 6, dup |-> FALSE]
                ELSE RBad(DispatchErrorBad, 6)
           [] b[5] = RInt -> IF Len(b) < 13 THEN RMore ELSE RVal(RInt, SubSeq(b, 6, 13), 13)
           [] b[5] = RFloat -> IF Len(b) < 13 THEN RMore ELSE RVal(RFloat, FCanon(SubSeq(b, 6, 13)), 13)
           [] b[5] = RBytes ->
                LET q == Items(b, 5, 1, 4, <<>>) IN IF ~q[1] THEN RMore ELSE RVal(RBytes, q[2][1], q[3])
           [] b[5] = RString ->
                LET q == Items(b, 5, 1, 4, <<>>)
                IN IF ~q[1] THEN RMore ELSE IF IsUtf8(q[2][1]) THEN RVal(RString, q[2][1], q[3])
                   ELSE RBad(StringBad, q[3])
           [] b[5] = RList ->
                IF Len(b) < 7 THEN RMore
                ELSE LET q == Items(b, 7, U16(b, 6), 4, <<>>)
                     IN IF ~q[1] THEN RMore ELSE RVal(RList, q[2], q[3])
           [] b[5] = RSet ->
                IF Len(b) < 7 THEN RMore
                ELSE LET q == Items(b, 7, U16(b, 6), 2, <<>>)
                     IN IF ~q[1] THEN RMore
                        ELSE [RVal(RSet, Range(q[2]), q[3]) EXCEPT !.dup = Cardinality(Range(q[2])) # Len(q[2])]
           [] b[5] = RMap ->
                IF Len(b) < 7 THEN RMore
                ELSE LET q == Pairs(b, 7, U16(b, 6), <<>>)
                     IN IF ~q[1] THEN RMore
                        ELSE [RVal(RMap, Range(q[2]), q[3])
                              EXCEPT !.dup = Cardinality({p[1] : p \in Range(q[2])}) # Len(q[2])]

(* Encoding; the parts of maps and sets come in any order.                    *)
RECURSIVE Parts(_, _, _)
Parts(xs, w, i) ==
    IF i > Len(xs) THEN <<>>
    ELSE (IF w = 4 THEN Bytes32(Len(xs[i])) ELSE << Len(xs[i]) \div 256, Len(xs[i]) % 256 >>) \o xs[i] \o Parts(xs, w, i + 1)
RECURSIVE PairParts(_, _)
PairParts(ps, i) == IF i > Len(ps) THEN <<>>
                    ELSE << Len(ps[i][1]) >> \o ps[i][1] \o Bytes32(Len(ps[i][2])) \o ps[i][2] \o PairParts(ps, i + 1)
Count16(n) == << n \div 256, n % 256 >>
\* v: for maps and sets a sequence in the order chosen.
Payload(t, v) ==
    CASE t = 1 -> << RBool >> \o v
      [] t = 0 -> << RBytes >> \o Bytes32(Len(v)) \o v
      [] t = 4 -> << RString >> \o Bytes32(Len(v)) \o v
      [] t = 2 -> << RFloat >> \o v
      [] t = 3 -> << RInt >> \o v
      [] t = 5 -> << RList >> \o Count16(Len(v)) \o Parts(v, 4, 1)
      [] t = 7 -> << RSet >> \o Count16(Len(v)) \o Parts(v, 2, 1)
      [] t = 6 -> << RMap >> \o Count16(Len(v)) \o PairParts(v, 1)
Framed(p) == Bytes32(Len(p)) \o p
\* Whether a value of this many parts of these sizes has an encoding.
Encodable(t, count, keylen, itemlen) ==
    /\ t \in {5, 6, 7} => count <= 65535
    /\ t = 6 => keylen <= 255
    /\ t = 7 => itemlen <= 65535

(* Which answers o are right for a buffer b. o.k: 0 more, asking for o.n; 1 a  *)
(* value; 2 and 3 errors the response carries; 4 refused for reason o.e.       *)
ValueIs(o, d) ==
    /\ o.v.t = d.t
    /\ CASE d.t \in {6, 7} -> Range(o.v.v) = d.v /\ Len(o.v.v) = Cardinality(d.v)
         [] d.t = 2 -> FCanon(o.v.v) = d.v
         [] OTHER -> o.v.v = d.v
Exactly(o, d) == CASE d.r = 1 -> o.k = 1 /\ ValueIs(o, d)
                   [] d.r \in {2, 3, 4} -> o.k = d.r /\ o.e = d.e
Positive(o) == o.k = 0 /\ o.n >= 1

Allowed(b, o) ==
    IF Len(b) < 4 THEN Positive(o)
    ELSE LET msg == 4 + U32(b, 1)
             d == Decode(b)
         IN IF Len(b) < msg
            THEN Positive(o) \/ (o.k = 4 /\ o.e = TypeBad /\ d.r = 4 /\ d.e = TypeBad)
            ELSE IF d.r = 0 THEN Positive(o) \/ o.k = 4
            ELSE IF d.dup THEN o.k \in {1, 4} \/ Positive(o)
            ELSE IF msg = d.n \/ d.n = 5 THEN Exactly(o, d)   \* (the type alone decides)
            ELSE Exactly(o, d) \/ o.k = 4 \/ (msg < d.n /\ Positive(o))

\* For the encoding of a response: when there is more to come, what's missing
\* is known, and no more is asked for than that.
Asked(total, b, o) == Len(b) < total => (o.k = 0 /\ o.n >= 1 /\ o.n <= total - Len(b))

(* The decoder as a machine. It waits for the announced bytes before it looks  *)
(* at any of them, and keeps how far it has got.                               *)
RFresh == [stage |-> 0]
DFeed(m, b) ==
    IF m.stage = 0 /\ Len(b) < 4 THEN << m, [k |-> 0, n |-> 4 - Len(b)] >>
    ELSE IF m.stage = 0 /\ Len(b) < 4 + U32(b, 1) THEN << m, [k |-> 0, n |-> 4 + U32(b, 1) - Len(b)] >>
    ELSE LET d == Decode(b)
         IN IF d.r = 0 THEN << [stage |-> 1], [k |-> 0, n |-> 1] >>
            ELSE << RFresh, CASE d.r = 1 -> [k |-> 1, v |-> [t |-> d.t, v |-> IF d.t \in {6, 7} THEN <<>> ELSE d.v], d |-> d]
                              [] OTHER -> [k |-> d.r, e |-> d.e] >>
=============================================================================
