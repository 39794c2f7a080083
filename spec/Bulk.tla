-------------------------------- MODULE Bulk --------------------------------
(* The store, the requests and the responses at sizes at which contents can't *)
(* be written out: everything is a sequence of runs, << what, how often >>,   *)
(* with neighbours that differ. Bytes are runs of bytes, strings of           *)
(* characters, lists of elements, which are runs of bytes themselves. A map   *)
(* is a set of pairs and a set a set, as in Hop.                              *)
EXTENDS Hop

Join(a, b) ==
    IF Len(a) = 0 THEN b
    ELSE IF Len(b) = 0 THEN a
    ELSE IF a[Len(a)][1] = b[1][1]
         THEN SubSeq(a, 1, Len(a) - 1) \o << << b[1][1], a[Len(a)][2] + b[1][2] >> >> \o Tail(b)
         ELSE a \o b

RECURSIVE Times(_, _)
Times(a, n) ==
    IF n = 1 \/ Len(a) = 0 THEN a
    ELSE IF Len(a) = 1 THEN << << a[1][1], a[1][2] * n >> >>
    ELSE Join(a, Times(a, n - 1))

\* Arguments (runs of runs) one after another.
RECURSIVE Flat(_)
Flat(args) ==
    IF Len(args) = 0 THEN <<>>
    ELSE Join(Times(args[1][1], args[1][2]), Flat(Tail(args)))

RECURSIVE Total(_)
Total(a) == IF Len(a) = 0 THEN 0 ELSE a[1][2] + Total(Tail(a))

IsRuns(a) == /\ \A i \in 1..Len(a) : a[i][2] > 0
             /\ \A i \in 2..Len(a) : a[i][1] # a[i - 1][1]

(* A request is [c, k, n |-> the name of the key (none: <<>>), a |-> the       *)
(* other arguments, as runs; exists, is and echo have all of theirs there].   *)
Others(r) == Total(r.a)
First(r) == r.a[1][1]
Elements(r) == {r.a[i][1] : i \in 1..Len(r.a)}
BTypeOf(kv, r, default) ==
    IF r.k # NoType THEN r.k ELSE IF Has(kv, r.n) THEN kv[r.n].t ELSE default

RECURSIVE BPairs(_)
BPairs(a) ==        \* the arguments of a map are not repeated
    IF Len(a) < 2 THEN {}
    ELSE LET later == BPairs(SubSeq(a, 3, Len(a)))
         IN IF \E p \in later : p[1] = a[1][1] THEN later ELSE later \cup {<< a[1][1], a[2][1] >>}

BMake(t, r) ==
    CASE t \in {KBytes, KString} -> V(t, First(r))
      [] t = KList -> V(t, r.a)
      [] t = KSet -> V(t, Elements(r))
      [] t = KMap -> V(t, BPairs(r.a))

BSet(kv, r) ==
    LET t == BTypeOf(kv, r, KBytes)
    IN IF Others(r) = 0 THEN Fail(kv, EArgument)
       ELSE Ok(Put(kv, r.n, BMake(t, r)), BMake(t, r))

BGet(kv, r) ==
    IF ~Has(kv, r.n) THEN Fail(kv, ENonexistent)
    ELSE IF r.k # NoType /\ r.k # kv[r.n].t THEN Fail(kv, EDifferent)
    ELSE Ok(kv, kv[r.n])

BDelete(kv, r) ==
    IF r.k # NoType THEN Fail(kv, EUnexpected)
    ELSE IF ~Has(kv, r.n) THEN Fail(kv, EPrecondition)
    ELSE Ok(Drop(kv, r.n), V(KBytes, r.n))

BExists(kv, r) ==
    IF r.k # NoType THEN Fail(kv, EUnexpected)
    ELSE Ok(kv, Bool(Elements(r) \subseteq DOMAIN kv))

BIs(kv, r) ==
    IF r.k = NoType THEN Fail(kv, ERequired)
    ELSE Ok(kv, Bool(\A x \in Elements(r) : Has(kv, x) /\ kv[x].t = r.k))

BType(kv, r) ==
    IF r.k # NoType THEN Fail(kv, EUnexpected)
    ELSE IF ~Has(kv, r.n) THEN Fail(kv, ENonexistent)
    ELSE Ok(kv, V(KInt, Nat8(kv[r.n].t)))

BRename(kv, r) ==
    IF r.k # NoType THEN Fail(kv, EUnexpected)
    ELSE IF ~Has(kv, r.n) THEN Fail(kv, ENonexistent)
    ELSE IF Has(kv, First(r)) THEN Fail(kv, EPrecondition)
    ELSE Ok(Put(Drop(kv, r.n), First(r), kv[r.n]), V(KBytes, First(r)))

BAppend(kv, r) ==
    LET t == BTypeOf(kv, r, KBytes)
        old == IF Has(kv, r.n) THEN kv[r.n] ELSE V(t, <<>>)
        new == V(t, Join(old.v, IF t = KList THEN r.a ELSE Flat(r.a)))
    IN IF t \notin {KBytes, KList, KString} \/ old.t # t THEN Fail(kv, EDifferent)
       ELSE Ok(Put(kv, r.n, new), new)

BSize(v) == IF v.t \in {KMap, KSet} THEN Cardinality(v.v) ELSE Total(v.v)

BLength(kv, r) ==
    LET t == BTypeOf(kv, r, KBytes)
    IN IF t \notin {KBytes, KList, KMap, KSet, KString} THEN Fail(kv, EInvalid)
       ELSE IF ~Has(kv, r.n) THEN Fail(kv, ENonexistent)
       ELSE IF kv[r.n].t # t THEN Fail(kv, EDifferent)
       ELSE Ok(kv, V(KInt, Nat8(BSize(kv[r.n]))))

BKeys(kv, r) ==
    IF BTypeOf(kv, r, KMap) # KMap THEN Fail(kv, EInvalid)
    ELSE IF ~Has(kv, r.n) THEN Fail(kv, ENonexistent)
    ELSE IF kv[r.n].t # KMap THEN Fail(kv, EDifferent)
    ELSE Ok(kv, V(KList, {p[1] : p \in kv[r.n].v}))

BExec(kv, r) ==
    CASE r.c = CSet -> BSet(kv, r)
      [] r.c = CGet -> BGet(kv, r)
      [] r.c = CDelete -> BDelete(kv, r)
      [] r.c = CExists -> BExists(kv, r)
      [] r.c = CIs -> BIs(kv, r)
      [] r.c = CRename -> BRename(kv, r)
      [] r.c = CType -> BType(kv, r)
      [] r.c = CAppend -> BAppend(kv, r)
      [] r.c = CLength -> BLength(kv, r)
      [] r.c = CKeys -> BKeys(kv, r)
      [] r.c = CEcho -> Ok(kv, V(KList, r.a))

(* ------------------------------ on the wire ------------------------------ *)
Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Utf8Size(_)
Utf8Size(s) == IF Len(s) = 0 THEN 0 ELSE Width(s[1][1]) * s[1][2] + Utf8Size(Tail(s))

\* How many bytes an argument has: y is the type it is written in here.
ArgSize(y, x) == IF y = KString THEN Utf8Size(x) ELSE Total(x)
RECURSIVE ArgsSize(_, _)
ArgsSize(y, a) ==
    IF Len(a) = 0 THEN 0 ELSE a[1][2] * (4 + ArgSize(y, a[1][1])) + ArgsSize(y, Tail(a))

RequestSize(r) ==
    1 + (IF r.k = NoType THEN 0 ELSE 1) + 1
      + (IF Len(r.n) = 0 THEN 0 ELSE 4 + Total(r.n)) + ArgsSize(r.y, r.a)

RECURSIVE SumOver(_, _)
SumOver(f(_), s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f(x) + SumOver(f, s \ {x})
RECURSIVE ListSize(_)
ListSize(a) == IF Len(a) = 0 THEN 0 ELSE a[1][2] * (4 + Total(a[1][1])) + ListSize(Tail(a))

\* What follows the four bytes of a response's length; c is the command.
PairSize(p) == 5 + Total(p[1]) + Total(p[2])
MemberSize(x) == 2 + Total(x)
KeyItemSize(x) == 4 + Total(x)
BodySize(c, v) ==
    CASE v.t = KBool -> 2
      [] v.t = KInt -> 9
      [] v.t = KBytes -> 5 + Total(v.v)
      [] v.t = KString -> 5 + Utf8Size(v.v)
      [] v.t = KList /\ c = CKeys -> 3 + SumOver(KeyItemSize, v.v)
      [] v.t = KList -> 3 + ListSize(v.v)
      [] v.t = KMap -> 3 + SumOver(PairSize, v.v)
      [] v.t = KSet -> 3 + SumOver(MemberSize, v.v)
=============================================================================
