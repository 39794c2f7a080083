------------------------------- MODULE MCStep -------------------------------
(* Every request of a pool on every store of a pool: checks the properties of *)
(* Hop one step at a time, and prints each step for replay in the real code.  *)
EXTENDS Hop, Json, IOUtils

Deep == IOEnv.DEEP = "1"
Emit == IOEnv.EMIT = "1"

a == <<97>>
b == <<98>>
Keys == {a, b}
Neg == <<255, 255, 255, 255, 255, 255, 255, 254>>
F15 == <<63, 248, 0, 0, 0, 0, 0, 0>>
MaxInt == <<127, 255, 255, 255, 255, 255, 255, 255>>
Accent == <<195, 169>>

\* Values a key may have; the type keeps them comparable by position only.
Pool == << V(KBytes, <<>>), V(KBytes, <<97, 255>>),
           V(KBool, <<0>>), V(KBool, <<1>>),
           V(KFloat, Zero8), V(KFloat, F15), V(KFloat, <<255, 240, 0, 0, 0, 0, 0, 0>>),
           V(KInt, Zero8), V(KInt, MaxInt),
           V(KString, <<>>), V(KString, Accent \o <<97>>),
           V(KList, <<>>), V(KList, <<a, <<>>, a>>),
           V(KMap, {}), V(KMap, {<<a, b>>, <<b, <<>>>>}),
           V(KSet, {}), V(KSet, {a, Accent}) >>
Others == IF Deep THEN << V(KBytes, b), V(KInt, One8), V(KMap, {<<a, a>>}) >> ELSE << V(KBytes, b) >>

Store(i, j) == LET fa == IF i = 0 THEN NoKeys ELSE (a :> Pool[i])
                   fb == IF j = 0 THEN NoKeys ELSE (b :> Others[j])
               IN fa @@ fb

X == {a, b, <<>>, Neg, F15, <<255>>, <<0>>, <<0, 0, 0, 0, 0, 0, 1>>, Accent, F15 \o <<1>>}
Y == IF Deep THEN {a, <<>>, One8, <<97, 255>>} ELSE {b, <<255>>}
ArgLists == {<<>>} \cup {<<k>> : k \in Keys} \cup {<<k, x>> : k \in Keys, x \in X}
            \cup {<<k, x, y>> : k \in Keys, x \in X, y \in Y}
            \cup {<<a, a, b, a, <<98, 98>>>>, <<a, b, b, a, a, b>>, <<b, Accent, <<200>>, Accent>>}
Reqs == [c : Commands \ {CStats}, k : {NoType} \cup Types, a : ArgLists]

VARIABLES kv, r, res, done

Init == (\E i \in 0..Len(Pool), j \in 0..Len(Others) : kv = Store(i, j)) /\ r = <<>> /\ res = <<>> /\ done = FALSE

ValJ(v) == << v.t, v.v >>
KvJ(f) == { << k, f[k].t, f[k].v >> : k \in DOMAIN f }

Next == /\ ~done
        /\ \E q \in {q \in Reqs : ~(q.c = CRename /\ Len(q.a) > 1 /\ q.a[2] = <<>>)} :
             /\ r' = q
             /\ res' = OnKeys(kv, q)
             /\ Emit => PrintT(ToJson(<< KvJ(kv), << q.c, q.k, q.a >>,
                            (IF res'.k = 0 THEN << 0, res'.v.t, res'.v.v >> ELSE << 1, res'.e >>),
                            KvJ(res'.kv) >>))
        /\ done' = TRUE
        /\ UNCHANGED kv

Spec == Init /\ [][Next]_<< kv, r, res, done >>

(* Properties of single steps, stated independently of how Exec is defined.   *)
Refused == res.k = 1
Effect(f) == EqKV(f, res.kv)
Same(f, g, k) == (k \in DOMAIN f) = (k \in DOMAIN g) /\ (k \in DOMAIN f => EqV(f[k], g[k]))

\* K04
RefusedHasNoEffect == done /\ Refused => Effect(kv)
\* K01: nothing but the named keys changes.
Frame == done => \A k \in Keys \ Named(r) : Same(kv, res.kv, k)
\* K01: reading commands change nothing.
ReadsDontWrite ==
    done /\ r.c \in {CGet, CExists, CIs, CType, CLength, CKeys, CEcho} => Effect(kv)
\* K01: what was set is what get, type, is and exists then report.
AskGet(k) == DoGet(res.kv, [c |-> CGet, k |-> NoType, a |-> <<k>>])
SetThenGet == done /\ r.c = CSet /\ ~Refused =>
    /\ AskGet(r.a[1]).k = 0
    /\ EqV(AskGet(r.a[1]).v, res.v)
    /\ r.k # NoType => res.v.t = r.k
    /\ r.k = NoType /\ Has(kv, r.a[1]) => res.v.t = kv[r.a[1]].t
TypeIsAgree == done => \A k \in DOMAIN res.kv :
    /\ DoType(res.kv, [c |-> CType, k |-> NoType, a |-> <<k>>]).v.v[8] = res.kv[k].t
    /\ \A t \in Types : (DoIs(res.kv, [c |-> CIs, k |-> t, a |-> <<k>>]).v.v = <<1>>) = (t = res.kv[k].t)
    /\ DoExists(res.kv, [c |-> CExists, k |-> NoType, a |-> <<k>>]).v.v = <<1>>
\* K01: every stored value is well-formed for its type.
WellFormed == done => \A k \in DOMAIN res.kv :
    LET v == res.kv[k] IN
    CASE v.t = KString -> IsUtf8(v.v)
      [] v.t \in {KInt, KFloat} -> Len(v.v) = 8
      [] v.t = KBool -> v.v \in {<<0>>, <<1>>}
      [] v.t = KMap -> \A p, q \in v.v : p[1] = q[1] => p = q
      [] OTHER -> TRUE
\* K01: rename moves and never replaces or copies.
RenameMoves == done /\ r.c = CRename /\ ~Refused =>
    /\ r.a[2] \notin DOMAIN kv /\ r.a[1] \notin DOMAIN res.kv
    /\ EqV(res.kv[r.a[2]], kv[r.a[1]])
DeleteRemoves == done /\ r.c = CDelete /\ ~Refused => DOMAIN res.kv = DOMAIN kv \ {r.a[1]}
\* K01: a named type is respected, except by set.
TypeRespected == done /\ ~Refused /\ r.k # NoType /\ r.c \in {CGet, CAppend, CLength, CKeys}
    /\ Has(kv, r.a[1]) => kv[r.a[1]].t = r.k
\* K02: undoing gives the old integer back; counters keep their type.
CountExact == done /\ r.c \in {CInc, CDec, CIncBy, CDecBy} /\ ~Refused =>
    /\ res.v.t \in {KInt, KFloat}
    /\ Has(kv, r.a[1]) => kv[r.a[1]].t = res.v.t
    /\ ~Has(kv, r.a[1]) => res.v.t = (IF r.k = KFloat THEN KFloat ELSE KInt)
    /\ res.v.t = KInt =>
         LET undo == [r EXCEPT !.c = CASE r.c = CInc -> CDec [] r.c = CDec -> CInc
                                       [] r.c = CIncBy -> CDecBy [] OTHER -> CIncBy]
         IN OnKeys(res.kv, undo).v.v = (IF Has(kv, r.a[1]) THEN kv[r.a[1]].v ELSE Zero8)
\* K03: append extends, and length grows by what was appended.
AppendExtends == done /\ r.c = CAppend /\ ~Refused =>
    LET old == IF Has(kv, r.a[1]) THEN kv[r.a[1]].v ELSE <<>> IN
    /\ SubSeq(res.v.v, 1, Len(old)) = old
    /\ res.v.t = KList => Len(res.v.v) = Len(old) + Len(r.a) - 1
KeysOnce == done /\ r.c = CKeys /\ ~Refused =>
    Cardinality(res.v.v) = Cardinality(kv[r.a[1]].v)
\* K05: every request has exactly one documented outcome.
Answered == done => \/ res.k = 0 /\ res.v.t \in Types
                    \/ res.k = 1 /\ res.e \in 0..7
=============================================================================
