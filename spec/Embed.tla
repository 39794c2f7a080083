-------------------------------- MODULE Embed --------------------------------
(* The engine as a library: a program that embeds it reads and changes the    *)
(* store itself, between requests, and both see the same keys. Handles of an  *)
(* engine are copied and dropped; all of them are the one store.              *)
EXTENDS Hop

EInsert == 200      \* puts a value, gives what it replaced
ERemove == 201      \* takes a key out, gives its value
EContains == 202
EType == 203        \* the type of a key
ERef == 204         \* the value of a key, and what it can be viewed as
EEdit == 205        \* views the value as one of x's type, and if it is one, sets it to x
EAssign == 206      \* sets the value of a key that exists to x
EOrInsert == 207    \* the value of a key, made the default of type t if there is none
EKind == 208        \* types and their numbers
\* An engine built with settings n = << pubsub (2: unset), sessions (1000: unset or more) >>.
ESettings == 209    \* whether it reports them
ESessions == 210    \* how many of five sessions it takes
ESubscribe == 211   \* whether it takes a subscription
Direct == EInsert..ESubscribe

Default(t) == CASE t = KBytes -> V(t, <<>>) [] t = KBool -> V(t, <<0>>)
                [] t = KFloat -> V(t, Zero8) [] t = KInt -> V(t, Zero8)
                [] t = KString -> V(t, <<>>) [] t = KList -> V(t, <<>>)
                [] t = KMap -> V(t, {}) [] OTHER -> V(t, {})

Maybe(kv, k) == IF Has(kv, k) THEN << kv[k] >> ELSE <<>>

\* What there is to see of a value: its type, whether it says it is of each of
\* the types, and whether it can be viewed as, and changed as, one of each.
View(v) == LET is == [u \in 1..8 |-> IF v.t = u - 1 THEN 1 ELSE 0] IN << <<v.t>>, is, is, is >>

\* [p |-> no or one value given, m |-> numbers given, kv |-> the store after].
Do(kv, e) ==
    LET old == Maybe(kv, e.n)
        R(p, m, kv2) == [p |-> p, m |-> m, kv |-> kv2]
    IN CASE e.c = EInsert -> R(old, <<>>, Put(kv, e.n, e.x))
         [] e.c = ERemove -> R(old, <<>>, Drop(kv, e.n))
         [] e.c = EContains -> R(<<>>, << <<Len(old)>> >>, kv)
         [] e.c = EType -> R(<<>>, << IF old = <<>> THEN <<>> ELSE << old[1].t >> >>, kv)
         [] e.c = ERef -> R(old, IF old = <<>> THEN <<>> ELSE View(old[1]), kv)
         [] e.c = EEdit ->
              LET fits == old # <<>> /\ old[1].t = e.x.t
              IN R(IF fits THEN old ELSE <<>>, <<>>, IF fits THEN Put(kv, e.n, e.x) ELSE kv)
         [] e.c = EAssign -> R(old, <<>>, IF old = <<>> THEN kv ELSE Put(kv, e.n, e.x))
         [] e.c = EOrInsert ->
              LET v == IF old = <<>> THEN Default(e.x.t) ELSE old[1]
              IN R(<< v >>, << <<1 - Len(old)>> >>, Put(kv, e.n, v))
         [] e.c = ESettings -> R(<<>>, << <<1>> >>, kv)
         [] e.c = ESessions -> R(<<>>, << << IF e.n[2] < 5 THEN e.n[2] ELSE 5 >> >>, kv)
         [] e.c = ESubscribe -> R(<<>>, << << IF e.n[1] = 0 THEN 0 ELSE 1 >> >>, kv)
         [] e.c = EKind -> R(<<>>, << IF e.x.v[1] \in Types THEN e.x.v ELSE <<>> >>, kv)
=============================================================================
