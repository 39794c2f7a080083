------------------------------- MODULE MCEmbed -------------------------------
(* Every direct use of a store of a pool: what it gives and leaves is what    *)
(* requests then see. Each is printed, to be done in the real engine.         *)
EXTENDS Embed, Json, IOUtils

Deep == IOEnv.DEEP = "1"
a == <<97>>
b == <<98, 0>>
Values == << V(KBytes, <<>>), V(KBytes, <<97, 255>>), V(KBool, <<0>>), V(KBool, <<1>>),
             V(KFloat, Zero8), V(KFloat, <<63, 248, 0, 0, 0, 0, 0, 0>>), V(KInt, Zero8),
             V(KInt, <<255, 255, 255, 255, 255, 255, 255, 254>>), V(KString, <<>>), V(KString, <<195, 169, 97>>),
             V(KList, <<>>), V(KList, << a, <<>>, a >>), V(KMap, {}), V(KMap, { << a, b >>, << b, <<>> >> }),
             V(KSet, {}), V(KSet, { a, b }) >>
Ops == [c : (EInsert..EOrInsert), n : {a, b}, x : 1..Len(Values)]

VARIABLES kv, e, res, done
ValJ(v) == << v.t, v.v >>
KvJ(f) == { << k, f[k].t, f[k].v >> : k \in DOMAIN f }
P == 0..Len(Values)
Others == IF Deep THEN P ELSE {0, 2, 6, 14}
Store(i, j) == (IF i = 0 THEN NoKeys ELSE (a :> Values[i])) @@ (IF j = 0 THEN NoKeys ELSE (b :> Values[j]))

Init == /\ \E i \in P, j \in Others : kv = Store(i, j)
        /\ e = <<>> /\ res = <<>> /\ done = FALSE

Next == /\ ~done
        /\ \E o \in Ops :
             /\ e' = [c |-> o.c, n |-> o.n, x |-> Values[o.x]]
             /\ res' = Do(kv, e')
             /\ PrintT(ToJson(<< KvJ(kv), << e'.c, e'.n, e'.x.t, e'.x.v >>,
                                 << [q \in 1..Len(res'.p) |-> ValJ(res'.p[q])], res'.m >>, KvJ(res'.kv) >>))
        /\ done' = TRUE
        /\ UNCHANGED kv
Spec == Init /\ [][Next]_<< kv, e, res, done >>

Ask(c, k) == Exec([NewStore EXCEPT !.kv = res.kv], [c |-> c, k |-> NoType, a |-> << k >>])
\* Nothing but the key named changes.
Frame == done => \A k \in {a, b} \ {e.n} :
    Has(kv, k) = Has(res.kv, k) /\ (Has(kv, k) => EqV(kv[k], res.kv[k]))
\* Looking changes nothing.
LooksOnly == done /\ e.c \in {EContains, EType, ERef} => EqKV(kv, res.kv)
\* What is there for the program is there for requests.
Agree == done => \A k \in {a, b} :
    LET is == Do(res.kv, [c |-> EContains, n |-> k, x |-> V(KBool, <<1>>)]).m[1][1]
        ty == Do(res.kv, [c |-> EType, n |-> k, x |-> V(KBool, <<1>>)]).m[1]
        v == Do(res.kv, [c |-> ERef, n |-> k, x |-> V(KBool, <<1>>)])
    IN /\ Ask(CExists, k).v.v = << is >>
       /\ ty # <<>> => Ask(CType, k).v.v[8] = ty[1]
       /\ ty = <<>> => Ask(CType, k).k = 1 /\ v.p = <<>>
       /\ v.p # <<>> => EqV(Ask(CGet, k).v, v.p[1])
\* A value is viewed as its own type, and no other.
OneView == done /\ e.c = ERef /\ res.p # <<>> =>
    \A w \in 2..4 : \A u \in 1..8 : (res.m[w][u] = 1) = (u - 1 = res.p[1].t)
\* An edit keeps the type; only inserting and assigning may change it.
Typed == done /\ e.c \in {EEdit, EOrInsert} =>
    \A k \in DOMAIN kv : Has(res.kv, k) /\ res.kv[k].t = kv[k].t
=============================================================================
