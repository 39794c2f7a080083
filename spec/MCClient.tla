------------------------------ MODULE MCClient ------------------------------
(* Every call of a pool on every store of a pool: what the store answers to a  *)
(* call's request always is of the type the call promises, and the requests    *)
(* and answers survive being written down and read back.                       *)
EXTENDS Client

a == <<97>>
b == <<98>>
Vals == { V(KBytes, <<1>>), V(KBool, <<1>>), V(KFloat, FOne), V(KInt, One8), V(KString, <<97>>),
          V(KList, << <<1>>, <<>> >>), V(KMap, {<< <<1>>, <<2>> >>}), V(KSet, {<<1>>, <<2>>}) }
Givens == { V(KBytes, <<>>), V(KBytes, <<1>>), V(KBool, <<0>>), V(KFloat, FOne), V(KInt, One8), V(KString, <<>>), V(KString, <<195, 169>>),
            V(KList, <<>>), V(KList, << <<1>> >>), V(KList, << <<1>>, <<>> >>),
            V(KMap, <<>>), V(KMap, << << <<1>>, <<2>> >>, << <<1>>, <<3>> >> >>), V(KMap, << << <<1>>, <<>> >> >>),
            V(KSet, <<>>), V(KSet, << <<1>>, <<1>>, <<2>> >>) }
NoValue == V(NoType, <<>>)
Stores == { [NewStore EXCEPT !.kv = Put(NoKeys, a, x)] : x \in Vals } \cup { NewStore }
KeySets == { <<>>, <<a>>, << a, b >>, << a, a >>, << <<>> >> }
Calls ==
    { [m |-> m, t |-> NoType, a |-> <<k>>, v |-> v, raw |-> r] : m \in TypedByValue, k \in {a, b, <<>>}, v \in Givens, r \in {0, 1} }
    \cup { [m |-> m, t |-> NoType, a |-> <<k>>, v |-> NoValue, raw |-> r] :
                m \in {CInc, CDec, CDelete, CType, CKeys, CEcho}, k \in {a, b, <<>>}, r \in {0, 1} }
    \cup { [m |-> m, t |-> t, a |-> <<k>>, v |-> NoValue, raw |-> r] :
                m \in {CGet, CLength}, t \in Types \cup {NoType}, k \in {a, b}, r \in {0, 1} }
    \cup { [m |-> m, t |-> t, a |-> <<k>>, v |-> NoValue, raw |-> 1] : m \in {CInc, CDec}, t \in Types, k \in {a, b} }
    \cup { [m |-> m, t |-> NoType, a |-> ks, v |-> NoValue, raw |-> r] : m \in {CExists}, ks \in KeySets, r \in {0, 1} }
    \cup { [m |-> CIs, t |-> t, a |-> ks, v |-> NoValue, raw |-> r] : t \in Types, ks \in KeySets, r \in {0, 1} }
    \cup { [m |-> CRename, t |-> NoType, a |-> << x, y >>, v |-> NoValue, raw |-> 0] : x, y \in {a, b, <<>>} }
    \cup { [m |-> CStats, t |-> NoType, a |-> <<>>, v |-> NoValue, raw |-> 0] }

VARIABLES st, e
Init == st \in Stores /\ e \in Calls
Next == /\ Refusals(e) = {} /\ st' = CallAfter(st, e) /\ Cardinality(DOMAIN st'.kv) < 3
        /\ st'.ok + st'.er < 2 /\ e' \in Calls
Spec == Init /\ [][Next]_<< st, e >>

Possible == Refusals(e) = {}
Res == Exec(st, RequestOf(e))
Encoding(r) == W!Encode([c |-> r.c, k |-> r.k, a |-> r.a])
Kept == (Possible /\ Res.k = 0) => Res.v.t \in Promise(e)
\* What is written is a request, and is that request.
Written == Possible => LET r == RequestOf(e)
                       IN /\ \A x \in Range(r.a) : x # <<>>
                          /\ Len(r.a) <= 255
                          /\ Spells(Encoding(r), e)
\* What the store answers, as a reply, gives what the store says.
Wire(x) == W!Framed(W!Payload(x.t, CASE x.t \in {KMap, KSet} -> SetToSeq(x.v)
                                      [] e.m = CKeys -> SetToSeq(x.v)
                                      [] OTHER -> x.v))
Outcome(x) == IF e.m = CStats THEN [k |-> 0, n |-> Counters(st)]
              ELSE [k |-> 0, v |-> CASE x.t \in {KMap, KSet} -> V(x.t, SetToSeq(x.v))
                                      [] e.m = CKeys -> V(x.t, SetToSeq(x.v))
                                      [] OTHER -> x]
Through == Possible =>
    IF Res.k = 0
    THEN CallOk(st, e, Outcome(Res.v)) /\ ReplyOk(e, Wire(Res.v), Outcome(Res.v))
    ELSE ReplyOk(e, << 0, 0, 0, 2, 9, Res.e >>, [k |-> 1, e |-> Res.e]) /\ CallOk(st, e, [k |-> 1, e |-> Res.e])
=============================================================================
