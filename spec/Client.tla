------------------------------- MODULE Client -------------------------------
(* The client: which request each call is, which calls can't be one, and what  *)
(* a call gives for the store's, or a server's, answer.                        *)
EXTENDS Hop

W == INSTANCE Resp
B == INSTANCE Builder WITH Max <- 255

(* A call is [m |-> command, t |-> type in its name or NoType, a |-> keys,     *)
(* v |-> value, raw |-> whether it is made on the backend]; a value without    *)
(* type is none. Maps and sets are as the caller gave them.                    *)
TypedByValue == {CSet, CAppend, CIncBy, CDecBy}
SetOf(s) == Range(s)
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN << x >> \o SetToSeq(s \ {x})
Distinct(v) ==
    CASE v.t = KMap -> [v EXCEPT !.v = SetToSeq(PairsOf(B!Flat(v.v, 1)))]
      [] v.t = KSet -> [v EXCEPT !.v = SetToSeq(SetOf(v.v))]
      [] OTHER -> v

Arguments(v) ==
    CASE v.t = NoType -> <<>>
      [] v.t \in 0..4 -> << v.v >>
      [] v.t \in {KList, KSet} -> v.v
      [] v.t = KMap -> B!Flat(v.v, 1)

RequestOf(e) ==
    [c |-> e.m,
     k |-> IF e.m \in TypedByValue THEN e.v.t ELSE e.t,
     a |-> e.a \o Arguments(Distinct(e.v))]

NoKeysGiven == 20
TooManyKeys == 21
Unsupported == 22

\* What a call that can't be made may be refused as.
Refusals(e) ==
    LET v == Distinct(e.v)
        s == [c |-> e.m, a |-> e.a]
        keys == (IF \E x \in Range(e.a) : x = <<>> THEN {B!EmptyArgument} ELSE {})
                \cup (IF Len(e.a) > 255 THEN {B!TooMany} ELSE {})
    IN IF e.m \in {CExists, CIs} /\ e.raw = 0 /\ e.a = <<>> THEN {NoKeysGiven}
       ELSE IF e.m \in {CExists, CIs} /\ e.raw = 0 /\ Len(e.a) > 255 THEN {TooManyKeys}
       ELSE keys \cup
            CASE e.m = CSet -> B!Refusals(s, 2, <<>>, v)
              [] e.m = CAppend ->
                    CASE v.t \in {KBytes, KString} -> IF v.v = <<>> THEN {B!EmptyArgument} ELSE {}
                      [] v.t = KList -> (IF \E x \in Range(v.v) : x = <<>> THEN {B!EmptyArgument} ELSE {})
                                        \cup (IF Len(v.v) > 254 THEN {B!TooMany} ELSE {})
                      [] OTHER -> {Unsupported}
              [] e.m \in {CIncBy, CDecBy} -> IF v.t \in {KInt, KFloat} THEN {} ELSE {Unsupported}
              [] OTHER -> {}

\* The type of what a call gives; every type: {}.
Promise(e) ==
    CASE e.m \in TypedByValue -> {e.v.t}
      [] e.m \in {CInc, CDec} -> {KInt, KFloat}
      [] e.m = CGet -> IF e.t = NoType THEN Types ELSE {e.t}
      [] e.m \in {CDelete, CRename} -> {KBytes}
      [] e.m \in {CExists, CIs} -> {KBool}
      [] e.m \in {CType, CLength} -> {KInt}
      [] e.m \in {CKeys, CEcho} -> {KList}
      [] e.m = CStats -> {KMap}

Counters(st) == << Nat8(st.ok), Nat8(st.er), Nat8(st.ss), Nat8(st.se) >>

(* What a call gives and the store afterwards: o.k is 0 a value (or counters), *)
(* 1 the store's error, 2 a refusal, 3 a failure of the connection.            *)
CallOk(st, e, o) ==
    LET no == Refusals(e)
        res == Exec(st, RequestOf(e))
    IN IF no # {} THEN o.k = 2 /\ o.e \in no
       ELSE IF res.k = 1 THEN o.k = 1 /\ o.e = res.e
       ELSE /\ o.k = 0
            /\ IF e.m = CStats THEN o.n = Counters(st) ELSE ObservedIs(e.m, o.v, res.v)
CallAfter(st, e) == IF Refusals(e) # {} THEN st ELSE After(st, Exec(st, RequestOf(e)))

-----------------------------------------------------------------------------
(* A server that answers anything: rep are the bytes that came for a request,  *)
(* before the connection ended (or not).                                       *)
WholeReply(rep) == LET d == W!Decode(rep)
                   IN /\ d.r # 0 /\ d.r # 4 /\ ~d.dup
                      /\ d.n = Len(rep)
                      /\ 4 + W!U32(rep, 1) = Len(rep)

RECURSIVE CounterIn(_, _)
CounterIn(m, name) == LET ps == {p \in m : p[1] = name}
                      IN IF ps = {} THEN Zero8
                         ELSE LET p == CHOOSE p \in ps : TRUE IN IF Len(p[2]) = 8 THEN p[2] ELSE Zero8
CountersIn(m) == << CounterIn(m, commands_successful), CounterIn(m, commands_errored),
                    CounterIn(m, sessions_started), CounterIn(m, sessions_ended) >>

IsTypeNumber(v) == SubSeq(v, 1, 7) = SubSeq(Zero8, 1, 7) /\ v[8] \in Types

Gives(e, d, o) ==   \* the outcome o is the value d a server answered
    /\ o.k = 0
    /\ IF e.m = CStats THEN o.n = CountersIn(d.v)
       ELSE /\ o.v.t = d.t
            /\ IF d.t \in {KMap, KSet} THEN SameSet(o.v.v, d.v) ELSE o.v.v = d.v

ReplyOk(e, rep, o) ==
    LET d == W!Decode(rep)
    IN IF WholeReply(rep)
       THEN CASE d.r = 1 -> IF d.t \in Promise(e) /\ (e.m = CType => IsTypeNumber(d.v)) THEN Gives(e, d, o) ELSE o.k = 3
              [] d.r = 2 -> o.k = 1 /\ o.e = d.e
              [] d.r = 3 -> o.k = 3
       ELSE \/ o.k = 3
            \/ d.r = 1 /\ o.k = 0
            \/ d.r = 2 /\ o.k = 1 /\ o.e = d.e

\* The bytes of a request are those of a call, up to the order in maps and sets.
Spells(w, e) ==
    LET p == W!Parse(w)
        r == RequestOf(e)
    IN /\ p.r = 2 /\ p.n = Len(w) /\ p.c = r.c /\ p.k = r.k
       /\ IF e.m = CSet
          THEN /\ Len(p.a) = Len(r.a) /\ p.a[1] = r.a[1]
               /\ MakeValue(p.k, p) = MakeValue(r.k, r)
          ELSE IF e.m \in {CIncBy, CDecBy} /\ r.k = KFloat
          THEN Len(p.a) = 2 /\ p.a[1] = r.a[1] /\ FCanon(p.a[2]) = FCanon(r.a[2])
          ELSE p.a = r.a
=============================================================================
