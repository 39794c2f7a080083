-------------------------------- MODULE MCConc --------------------------------
(* The moments at which concurrent requests take effect, as Lin allows them,  *)
(* run forwards: every behaviour that Lin accepts is one of these, and these  *)
(* have the properties X02 and X03 speak of.                                  *)
EXTENDS Hop, IOUtils

Family == IOEnv.FAMILY      \* "count", "append" or "rename"
Long == IOEnv.LONG = "1"    \* whether a thread has two requests

a == <<97>>
b == <<98>>
c == <<99>>
T == 1..3
R(cmd, k, args) == [c |-> cmd, k |-> k, a |-> args]

Pool == CASE Family = "count" ->
                << R(CInc, KInt, <<a>>), R(CDecBy, KInt, <<a, Nat8(3)>>), R(CIncBy, NoType, <<a, Nat8(5)>>),
                   R(CDec, NoType, <<a>>), R(CInc, KFloat, <<a>>) >>
          [] Family = "append" ->
                << R(CAppend, KList, <<a, <<1>>>>), R(CAppend, NoType, <<a, <<2>>>>),
                   R(CAppend, KList, <<a, <<3>>, <<4>>>>), R(CAppend, KBytes, <<a, <<5>>>>) >>
          [] OTHER ->
                << R(CRename, NoType, <<a, b>>), R(CRename, NoType, <<a, c>>), R(CRename, NoType, <<b, a>>),
                   R(CRename, NoType, <<b, c>>), R(CRename, NoType, <<c, a>>), R(CSet, KBytes, <<b, <<7>>>>),
                   R(CDelete, NoType, <<a>>), R(CGet, NoType, <<b>>) >>

Inits == CASE Family = "count" -> << NoKeys, (a :> V(KInt, Nat8(2))), (a :> V(KFloat, FOne)) >>
           [] Family = "append" -> << NoKeys, (a :> V(KList, <<<<9>>>>)) >>
           [] OTHER -> << (a :> V(KBytes, <<1>>)), (a :> V(KBytes, <<1>>)) @@ (b :> V(KBytes, <<2>>)) >>

VARIABLES kv0, prog, pc, mid, kv, log

vars == << kv0, prog, pc, mid, kv, log >>
Idx == 1..Len(Pool)

Init == /\ \E i \in 1..Len(Inits) : kv0 = Inits[i]
        /\ kv = kv0
        /\ prog \in [T -> IF Long THEN Idx \X Idx ELSE Idx \X {0}]
        /\ pc = [t \in T |-> 1]
        /\ mid = [t \in {} |-> V(0, <<>>)]
        /\ log = <<>>       \* what was answered, in the order of the effects

Len2(t) == IF prog[t][2] = 0 THEN 1 ELSE 2
Busy(t) == pc[t] <= Len2(t)
Req(t) == Pool[prog[t][pc[t]]]

Answer(t, k, v, before, after) ==
    /\ log' = Append(log, [t |-> t, i |-> prog[t][pc[t]], k |-> k, v |-> v])
    /\ kv' = after
    /\ pc' = [pc EXCEPT ![t] = @ + 1]
    /\ mid' = [x \in DOMAIN mid \ {t} |-> mid[x]]
    /\ UNCHANGED << kv0, prog >>
Hold(t, v, after) ==
    /\ mid' = [x \in DOMAIN mid \cup {t} |-> IF x = t THEN v ELSE mid[x]]
    /\ kv' = after
    /\ UNCHANGED << kv0, prog, pc, log >>

Nothing == V(KBytes, <<>>)
DefaultType(cmd) == IF cmd = CAppend THEN KBytes ELSE KInt
AsType(r, t) == IF r.c = CAppend THEN AppendAs(kv, r, t) ELSE CountAs(kv, r, IF t = KFloat THEN KFloat ELSE KInt)

Whole(t) ==
    LET r == Req(t)
        res == OnKeys(kv, r)
    IN /\ r.c # CRename /\ t \notin DOMAIN mid
       /\ Answer(t, res.k, IF res.k = 0 THEN res.v ELSE Nothing, kv, res.kv)

\* The type is looked up at one moment and used at a later one.
Loose(t) ==
    LET r == Req(t) IN
    /\ r.c # CRename /\ r.k = NoType /\ r.c \notin {CGet, CDelete}
    /\ \/ t \notin DOMAIN mid /\ Hold(t, V(TypeOf(kv, r, DefaultType(r.c)), <<>>), kv)
       \/ /\ t \in DOMAIN mid
          /\ LET res == AsType(r, mid[t].t)
             IN Answer(t, res.k, IF res.k = 0 THEN res.v ELSE Nothing, kv, res.kv)

Rename(t) ==
    LET r == Req(t)
        src == r.a[1]
        dst == r.a[2]
    IN /\ r.c = CRename
       /\ \/ t \notin DOMAIN mid /\ (~Has(kv, src) \/ Has(kv, dst)) /\ Answer(t, 1, Nothing, kv, kv)
          \/ t \notin DOMAIN mid /\ Has(kv, src) /\ Hold(t, kv[src], Drop(kv, src))
          \/ t \in DOMAIN mid /\ ~Has(kv, dst) /\ Answer(t, 0, mid[t], kv, Put(kv, dst, mid[t]))
          \/ t \in DOMAIN mid /\ Has(kv, dst) /\ ~Has(kv, src)
                /\ Answer(t, 1, Nothing, kv, Put(kv, src, mid[t]))
          \/ t \in DOMAIN mid /\ Has(kv, dst) /\ Has(kv, src) /\ Answer(t, 1, Nothing, kv, kv)

Next == \E t \in T : Busy(t) /\ (Whole(t) \/ Loose(t) \/ Rename(t))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllDone == \A t \in T : ~Busy(t)
Acked == {i \in 1..Len(log) : log[i].k = 0}

RECURSIVE SumOf(_, _)
SumOf(n, s) ==
    IF n > Len(log) THEN s
    ELSE IF log[n].k # 0 THEN SumOf(n + 1, s)
    ELSE LET r == Pool[log[n].i]
             t == log[n].v.t
         IN SumOf(n + 1, Sum(t, s, Amount(t, r)))

\* X02
NothingLost ==
    AllDone /\ Family = "count" /\ a \in DOMAIN kv =>
        kv[a].v = SumOf(1, IF a \in DOMAIN kv0 THEN kv0[a].v ELSE Zero8)
RECURSIVE Appended(_)
Appended(n) == IF n > Len(log) THEN <<>>
               ELSE (IF log[n].k = 0 THEN Tail(Pool[log[n].i].a) ELSE <<>>) \o Appended(n + 1)
EveryElementOnce ==
    AllDone /\ Family = "append" /\ a \in DOMAIN kv =>
        LET old == IF a \in DOMAIN kv0 THEN kv0[a].v ELSE <<>>
        IN IF kv[a].t = KList THEN kv[a].v = old \o Appended(1) ELSE kv[a].v = Concat(Appended(1))
Acknowledged == AllDone /\ Family \in {"count", "append"} /\ a \notin DOMAIN kv => Acked = {}

\* X03
Values(f) == {f[k].v : k \in DOMAIN f}
FreshSets == Cardinality({t \in T : \E n \in 1..2 : prog[t][n] = 6}) <= 1
NeverTwice == Family = "rename" /\ ~(\E t \in T : prog[t][1] = 6 /\ prog[t][2] = 6) /\ FreshSets =>
    \A x, y \in DOMAIN kv : x # y => kv[x].v # kv[y].v
NoCopyHeld == Family = "rename" /\ FreshSets /\ ~(\E t \in T : prog[t][1] = 6 /\ prog[t][2] = 6) =>
    \A t \in DOMAIN mid, x \in DOMAIN kv : Req(t).c = CRename => kv[x].v # mid[t].v
OnlyRenamesOf(k) == \A t \in T : \A n \in 1..2 : prog[t][n] # 0 =>
    Pool[prog[t][n]].c = CRename /\ Pool[prog[t][n]].a[1] = k
AtMostOne == Family = "rename" /\ AllDone /\ OnlyRenamesOf(a) => Cardinality(Acked) <= 1
\* With renames alone no value is ever lost, whatever is refused.
OnlyRenames == \A t \in T : \A n \in 1..2 : prog[t][n] # 0 => Pool[prog[t][n]].c = CRename
NeverOverwrites ==      \* nothing that exists under a name is replaced by a rename
    [][Family = "rename" => \A k \in DOMAIN kv \cap DOMAIN kv' :
          ~EqV(kv[k], kv'[k]) => \E t \in T : pc'[t] # pc[t] /\ Req(t).c = CSet]_vars

\* X04
Ends == <>AllDone
=============================================================================
