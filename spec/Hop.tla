-------------------------------- MODULE Hop --------------------------------
(* The store and its sixteen commands: Exec(st, r) is what one request does.  *)
(*                                                                            *)
(* A store state is                                                           *)
(*   [kv |-> key -> value, ok |-> n, er |-> n, ss |-> n, se |-> n]            *)
(* the keys with their values, and the counters of successful and errored     *)
(* requests and of sessions started and ended. A value is [t |-> type, v |->  *)
(* contents]: bytes and strings as byte strings, a boolean as a one-byte      *)
(* string, floats and integers as 8-byte strings, a list as a sequence of     *)
(* byte strings, a map as a set of pairs and a set as a set of byte strings.  *)
EXTENDS Bytes, TLC

(* Types *)
KBytes == 0
KBool == 1
KFloat == 2
KInt == 3
KString == 4
KList == 5
KMap == 6
KSet == 7
Types == 0..7
NoType == -1

(* Commands *)
CInc == 0
CDec == 1
CIncBy == 2
CDecBy == 3
CSet == 10
CGet == 11
CDelete == 12
CExists == 13
CIs == 14
CRename == 15
CType == 16
CAppend == 20
CLength == 21
CKeys == 22
CEcho == 100
CStats == 101
Commands == {CInc, CDec, CIncBy, CDecBy, CSet, CGet, CDelete, CExists, CIs, CRename,
             CType, CAppend, CLength, CKeys, CEcho, CStats}

(* Errors *)
EArgument == 0      \* a required argument is missing or malformed
ENoKey == 1         \* no key given
EDifferent == 2     \* the key has another type
EUnexpected == 3    \* the command takes no type
EPrecondition == 4  \* a precondition failed
ENonexistent == 5   \* there is no such key
ERequired == 6      \* the command needs a type
EInvalid == 7       \* the command doesn't support the type

V(t, v) == [t |-> t, v |-> v]
Bool(b) == V(KBool, IF b THEN <<1>> ELSE <<0>>)
EqV(x, y) == x.t = y.t /\ x.v = y.v
EqKV(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : EqV(f[k], g[k])

NoKeys == [k \in {} |-> 0]
NewStore == [kv |-> NoKeys, ok |-> 0, er |-> 0, ss |-> 0, se |-> 0]

Put(kv, k, v) == [x \in DOMAIN kv \cup {k} |-> IF x = k THEN v ELSE kv[x]]
Drop(kv, k) == [x \in DOMAIN kv \ {k} |-> kv[x]]

(* A request is [c |-> command, k |-> type or NoType, a |-> arguments]. *)
Has(kv, k) == k \in DOMAIN kv
Arg(r, i) == r.a[i + 1]
NArgs(r) == Len(r.a)
Rest(r) == Tail(r.a)

Ok(kv, v) == [k |-> 0, v |-> v, kv |-> kv]
Fail(kv, e) == [k |-> 1, e |-> e, kv |-> kv]

\* The type a request works with: the one it names, or the key's, or a default.
TypeOf(kv, r, default) ==
    IF r.k # NoType THEN r.k
    ELSE IF Has(kv, Arg(r, 0)) THEN kv[Arg(r, 0)].t
    ELSE default

RECURSIVE PairsOf(_)
PairsOf(a) ==       \* a later pair replaces an earlier one of the same key
    IF Len(a) < 2 THEN {}
    ELSE LET later == PairsOf(SubSeq(a, 3, Len(a)))
         IN IF \E p \in later : p[1] = a[1] THEN later ELSE later \cup {<< a[1], a[2] >>}

\* Whether the arguments after the key make a value of the type.
Settable(t, r) ==
    CASE t \in {KInt, KFloat} -> Len(Arg(r, 1)) >= 8
      [] t = KBool -> Len(Arg(r, 1)) >= 1
      [] t = KString -> IsUtf8(Arg(r, 1))
      [] OTHER -> TRUE

Number(t, x) == IF t = KFloat THEN FCanon(SubSeq(x, 1, 8)) ELSE SubSeq(x, 1, 8)

MakeValue(t, r) ==
    CASE t \in {KInt, KFloat} -> V(t, Number(t, Arg(r, 1)))
      [] t = KBool -> Bool(Arg(r, 1)[1] > 0)
      [] t \in {KString, KBytes} -> V(t, Arg(r, 1))
      [] t = KList -> V(t, Rest(r))
      [] t = KSet -> V(t, Range(Rest(r)))
      [] t = KMap -> V(t, PairsOf(Rest(r)))

(* -------------------------------- set ----------------------------------- *)
SetAs(kv, r, t) ==
    IF Settable(t, r) THEN Ok(Put(kv, Arg(r, 0), MakeValue(t, r)), MakeValue(t, r))
    ELSE Fail(kv, EArgument)

DoSet(kv, r) ==
    IF NArgs(r) = 0 THEN Fail(kv, ENoKey)
    ELSE IF NArgs(r) = 1 THEN Fail(kv, EArgument)
    ELSE SetAs(kv, r, TypeOf(kv, r, KBytes))

(* -------------------------------- get ----------------------------------- *)
DoGet(kv, r) ==
    IF NArgs(r) = 0 THEN Fail(kv, ENoKey)
    ELSE IF ~Has(kv, Arg(r, 0)) THEN Fail(kv, ENonexistent)
    ELSE IF r.k # NoType /\ r.k # kv[Arg(r, 0)].t THEN Fail(kv, EDifferent)
    ELSE Ok(kv, kv[Arg(r, 0)])

DoDelete(kv, r) ==
    IF r.k # NoType THEN Fail(kv, EUnexpected)
    ELSE IF NArgs(r) = 0 THEN Fail(kv, ENoKey)
    ELSE IF ~Has(kv, Arg(r, 0)) THEN Fail(kv, EPrecondition)
    ELSE Ok(Drop(kv, Arg(r, 0)), V(KBytes, Arg(r, 0)))

DoExists(kv, r) ==
    IF r.k # NoType THEN Fail(kv, EUnexpected)
    ELSE IF NArgs(r) = 0 THEN Fail(kv, EArgument)
    ELSE Ok(kv, Bool(Range(r.a) \subseteq DOMAIN kv))

DoIs(kv, r) ==
    IF r.k = NoType THEN Fail(kv, ERequired)
    ELSE IF NArgs(r) = 0 THEN Fail(kv, EArgument)
    ELSE Ok(kv, Bool(\A x \in Range(r.a) : Has(kv, x) /\ kv[x].t = r.k))

DoType(kv, r) ==
    IF NArgs(r) = 0 THEN Fail(kv, ENoKey)
    ELSE IF r.k # NoType THEN Fail(kv, EUnexpected)
    ELSE IF ~Has(kv, Arg(r, 0)) THEN Fail(kv, ENonexistent)
    ELSE Ok(kv, V(KInt, Nat8(kv[Arg(r, 0)].t)))

(* ------------------------------- rename --------------------------------- *)
RenameBad(r) == r.k # NoType \/ NArgs(r) < 2
RenameBadError(r) ==
    IF r.k # NoType THEN EUnexpected ELSE IF NArgs(r) = 0 THEN ENoKey ELSE EArgument

DoRename(kv, r) ==
    IF RenameBad(r) THEN Fail(kv, RenameBadError(r))
    ELSE IF ~Has(kv, Arg(r, 0)) THEN Fail(kv, ENonexistent)
    ELSE IF Has(kv, Arg(r, 1)) THEN Fail(kv, EPrecondition)
    ELSE Ok(Put(Drop(kv, Arg(r, 0)), Arg(r, 1), kv[Arg(r, 0)]), V(KBytes, Arg(r, 1)))

(* --------------------- increment and decrement -------------------------- *)
By(r) == r.c \in {CIncBy, CDecBy}
Down(r) == r.c \in {CDec, CDecBy}
\* Any type but float counts in integers.
CountType(kv, r) == IF TypeOf(kv, r, KInt) = KFloat THEN KFloat ELSE KInt
\* 0.0 - x, so that subtracting zero from a new key gives zero.
Amount(t, r) ==
    LET x == IF By(r) THEN Number(t, Arg(r, 1)) ELSE IF t = KFloat THEN FOne ELSE One8
    IN IF ~Down(r) THEN x
       ELSE IF t = KInt THEN Neg64(x)
       ELSE IF ~By(r) THEN FNeg(x) ELSE FAdd(Zero8, FNeg(x))
Sum(t, x, y) == IF t = KFloat THEN FAdd(x, y) ELSE Add64(x, y)

CountAs(kv, r, t) ==
    LET key == Arg(r, 0)
        old == IF Has(kv, key) THEN kv[key] ELSE V(t, Zero8)
        new == V(t, Sum(t, old.v, Amount(t, r)))
    IN IF By(r) /\ (NArgs(r) < 2 \/ Len(Arg(r, 1)) < 8) THEN Fail(kv, EArgument)
       ELSE IF old.t # t THEN Fail(kv, EDifferent)
       ELSE Ok(Put(kv, key, new), new)

DoCount(kv, r) ==
    IF NArgs(r) = 0 THEN Fail(kv, ENoKey)
    ELSE CountAs(kv, r, CountType(kv, r))

(* ------------------------------- append --------------------------------- *)
AppendAs(kv, r, t) ==
    LET key == Arg(r, 0)
        old == IF Has(kv, key) THEN kv[key] ELSE V(t, <<>>)
        new == CASE t = KBytes -> V(t, old.v \o Concat(Rest(r)))
                 [] t = KList -> V(t, old.v \o Rest(r))
                 [] t = KString -> V(t, old.v \o Concat(SelectSeq(Rest(r), IsUtf8)))
    IN IF t \notin {KBytes, KList, KString} THEN Fail(kv, EDifferent)
       ELSE IF old.t # t THEN Fail(kv, EDifferent)
       ELSE Ok(Put(kv, key, new), new)

DoAppend(kv, r) ==
    IF NArgs(r) = 0 THEN Fail(kv, ENoKey) ELSE AppendAs(kv, r, TypeOf(kv, r, KBytes))

(* --------------------------- length and keys ---------------------------- *)
LengthOf(v) ==
    CASE v.t = KString -> Chars(v.v)
      [] v.t \in {KBytes, KList} -> Len(v.v)
      [] v.t \in {KMap, KSet} -> Cardinality(v.v)

LengthAs(kv, r, t) ==
    IF t \notin {KBytes, KList, KMap, KSet, KString} THEN Fail(kv, EInvalid)
    ELSE IF ~Has(kv, Arg(r, 0)) THEN Fail(kv, ENonexistent)
    ELSE IF kv[Arg(r, 0)].t # t THEN Fail(kv, EDifferent)
    ELSE Ok(kv, V(KInt, Nat8(LengthOf(kv[Arg(r, 0)]))))

DoLength(kv, r) ==
    IF NArgs(r) = 0 THEN Fail(kv, ENoKey) ELSE LengthAs(kv, r, TypeOf(kv, r, KBytes))

\* The keys of a map in any order: a set stands for the lists of its elements.
KeysAs(kv, r, t) ==
    IF t # KMap THEN Fail(kv, EInvalid)
    ELSE IF ~Has(kv, Arg(r, 0)) THEN Fail(kv, ENonexistent)
    ELSE IF kv[Arg(r, 0)].t # KMap THEN Fail(kv, EDifferent)
    ELSE Ok(kv, V(KList, {p[1] : p \in kv[Arg(r, 0)].v}))

DoKeys(kv, r) ==
    IF NArgs(r) = 0 THEN Fail(kv, ENoKey) ELSE KeysAs(kv, r, TypeOf(kv, r, KMap))

(* --------------------------- echo and stats ----------------------------- *)
DoEcho(kv, r) == Ok(kv, V(KList, r.a))

Name(s) == s    \* counter names are byte strings, spelled below
commands_successful == <<99,111,109,109,97,110,100,115,95,115,117,99,99,101,115,115,102,117,108>>
commands_errored == <<99,111,109,109,97,110,100,115,95,101,114,114,111,114,101,100>>
sessions_started == <<115,101,115,115,105,111,110,115,95,115,116,97,114,116,101,100>>
sessions_ended == <<115,101,115,115,105,111,110,115,95,101,110,100,101,100>>

StatsMap(st) ==     \* a counter that never counted may be missing
    { << p[1], Nat8(p[2]) >> :
        p \in { << commands_successful, st.ok >>, << commands_errored, st.er >>,
                << sessions_started, st.ss >>, << sessions_ended, st.se >> } }

DoStats(st, r) ==
    IF r.k # NoType THEN Fail(st.kv, EUnexpected)
    ELSE Ok(st.kv, V(KMap, StatsMap(st)))

(* ------------------------------------------------------------------------ *)
OnKeys(kv, r) ==
    CASE r.c = CSet -> DoSet(kv, r)
      [] r.c = CGet -> DoGet(kv, r)
      [] r.c = CDelete -> DoDelete(kv, r)
      [] r.c = CExists -> DoExists(kv, r)
      [] r.c = CIs -> DoIs(kv, r)
      [] r.c = CRename -> DoRename(kv, r)
      [] r.c = CType -> DoType(kv, r)
      [] r.c \in {CInc, CDec, CIncBy, CDecBy} -> DoCount(kv, r)
      [] r.c = CAppend -> DoAppend(kv, r)
      [] r.c = CLength -> DoLength(kv, r)
      [] r.c = CKeys -> DoKeys(kv, r)
      [] r.c = CEcho -> DoEcho(kv, r)

\* What a request does to a store state: [k, v or e, kv].
Exec(st, r) == IF r.c = CStats THEN DoStats(st, r) ELSE OnKeys(st.kv, r)

\* The state after it, counters included.
After(st, res) ==
    [st EXCEPT !.kv = res.kv,
               !.ok = @ + (IF res.k = 0 THEN 1 ELSE 0),
               !.er = @ + (IF res.k = 1 THEN 1 ELSE 0)]

(* ------------------------------------------------------------------------ *)
\* Whether an observed value o (sets as sequences in any order) is the value v
\* a command's result r.c gives.
SameSet(o, s) == Len(o) = Cardinality(s) /\ Range(o) = s

ObservedIs(c, o, v) ==
    /\ o.t = v.t
    /\ IF v.t \in {KMap, KSet} \/ (c = CKeys /\ v.t = KList) THEN
          IF c = CStats
          THEN /\ Range(o.v) \subseteq v.v
               /\ Cardinality(Range(o.v)) = Len(o.v)
               /\ \A p \in v.v : p[2] # Zero8 => p \in Range(o.v)
          ELSE SameSet(o.v, v.v)
       ELSE o.v = v.v

\* An observed value as the specification's.
AsValue(o) == IF o.t \in {KMap, KSet} THEN V(o.t, Range(o.v)) ELSE o

\* What a request names.
Named(r) == CASE r.c \in {CEcho, CStats} -> {}
              [] r.c \in {CExists, CIs} -> Range(r.a)
              [] r.c = CRename -> Range(SubSeq(r.a, 1, IF Len(r.a) < 2 THEN Len(r.a) ELSE 2))
              [] OTHER -> IF Len(r.a) = 0 THEN {} ELSE {r.a[1]}
=============================================================================
