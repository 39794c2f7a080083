--------------------------------- MODULE Lin ---------------------------------
(* Concurrent histories: is there an order of the moments at which the        *)
(* operations took effect, each between its beginning and its end, in which   *)
(* every outcome is the specified one and the final contents are those seen?  *)
(* Requests take effect as in Hop at one moment. A rename takes the value at  *)
(* one moment and puts it at a later one. Sessions and subscriptions are a    *)
(* set of ids and a relation. Ids are 32 bits, read as signed.                                                *)
EXTENDS Hop, Json, IOUtils

\* A history has id, init, fin (contents before and after), dead (whether some
\* operation can't ever end), n (counters after) and ev. An event has
\* t (thread), c, o and p (the events that ended before it began).
Hist == ndJsonDeserialize(IOEnv.HIST)

\* Commands whose requests without a type may find the type at one moment and
\* take effect at a later one, as the engine is known to do.
Loose == IOEnv.LOOSE
LooseC == CASE Loose \in {"none", "rename"} -> {}
            [] Loose = "append" -> {CAppend}
            [] Loose = "set" -> {CSet}
            [] Loose = "count" -> {CInc, CDec, CIncBy, CDecBy}
            [] Loose = "length" -> {CLength}
            [] Loose = "keys" -> {CKeys}
            [] OTHER -> {CAppend, CSet, CInc, CDec, CIncBy, CDecBy, CLength, CKeys}
\* Whether a rename that can't put the value anywhere may drop it.
LooseRename == Loose \in {"rename", "all"}

CAdd == 200
CRemove == 201
CNextId == 202       \* the next id is set (the ids start over)
CCrowd == 203        \* many sessions are added
CLeave == 204        \* and removed
CSub == 210
CUnsub == 211
CHas == 212
CDrop == 213
COpen == 214

VARIABLES h, done, mid, st

vars == << h, done, mid, st >>
Ev == Hist[h].ev
N == Len(Ev)
Entries(s) == [k \in {p.n : p \in Range(s)} |-> AsValue((CHOOSE p \in Range(s) : p.n = k).x)]

Answered == \A i \in 1..N : Ev[i].o.k \in {0, 1}

Init == /\ h \in 1..Len(Hist)
        /\ Answered /\ Hist[h].dead = 0
        /\ done = {}
        /\ mid = [i \in {} |-> V(0, <<>>)]
        /\ st = [kv |-> Entries(Hist[h].init), live |-> {}, crowd |-> 0, subs |-> {}, known |-> {}, chans |-> {}, ss |-> 0, se |-> 0]

Free(i) == /\ i \notin done
           /\ \A j \in Range(Ev[i].p) : j \in done

Matches(e, res) == e.o.k = res.k /\ (IF res.k = 0 THEN ObservedIs(e.c, e.o.v, res.v) ELSE e.o.e = res.e)

Finish(i, s) == /\ st' = s
                /\ done' = done \cup {i}
                /\ mid' = [j \in DOMAIN mid \ {i} |-> mid[j]]
Hold(i, v, s) == /\ st' = s
                 /\ mid' = [j \in DOMAIN mid \cup {i} |-> IF j = i THEN v ELSE mid[j]]
                 /\ UNCHANGED done

IsTwoStep(e) == e.c \in LooseC /\ e.k = NoType /\ Len(e.a) > 1 - (IF e.c \in {CSet, CAppend} THEN 0 ELSE 1)

DefaultType(c) == CASE c \in {CInc, CDec, CIncBy, CDecBy} -> KInt
                    [] c = CKeys -> KMap
                    [] OTHER -> KBytes

AsType(kv, e, t) == CASE e.c \in {CInc, CDec, CIncBy, CDecBy} -> CountAs(kv, e, IF t = KFloat THEN KFloat ELSE KInt)
                      [] e.c = CSet -> SetAs(kv, e, t)
                      [] e.c = CAppend -> AppendAs(kv, e, t)
                      [] e.c = CLength -> LengthAs(kv, e, t)
                      [] e.c = CKeys -> KeysAs(kv, e, t)

(* One moment. *)
Whole(i) ==
    LET e == Ev[i] IN
    /\ i \notin DOMAIN mid
    /\ e.c \in Commands \ {CStats}
    /\ e.c = CRename => RenameBad(e)
    /\ LET res == OnKeys(st.kv, e)
       IN Matches(e, res) /\ Finish(i, [st EXCEPT !.kv = res.kv])

TwoStep(i) ==
    LET e == Ev[i] IN
    /\ e.c \in Commands /\ IsTwoStep(e)
    /\ \/ /\ i \notin DOMAIN mid
          /\ Hold(i, V(TypeOf(st.kv, e, DefaultType(e.c)), <<>>), st)
       \/ /\ i \in DOMAIN mid
          /\ LET res == AsType(st.kv, e, mid[i].t)
             IN Matches(e, res) /\ Finish(i, [st EXCEPT !.kv = res.kv])

Rename(i) ==
    LET e == Ev[i]
        src == e.a[1]
        dst == e.a[2]
    IN
    /\ e.c = CRename /\ ~RenameBad(e)
    /\ \/ /\ i \notin DOMAIN mid
          /\ e.o.k = 1
          /\ \/ e.o.e = ENonexistent /\ ~Has(st.kv, src)
             \/ e.o.e = EPrecondition /\ Has(st.kv, dst)
          /\ Finish(i, st)
       \/ /\ i \notin DOMAIN mid
          /\ Has(st.kv, src)
          /\ Hold(i, st.kv[src], [st EXCEPT !.kv = Drop(@, src)])
       \/ /\ i \in DOMAIN mid
          /\ ~Has(st.kv, dst)
          /\ e.o.k = 0 /\ ObservedIs(e.c, e.o.v, V(KBytes, dst))
          /\ Finish(i, [st EXCEPT !.kv = Put(@, dst, mid[i])])
       \/ /\ i \in DOMAIN mid
          /\ e.o.k = 1 /\ e.o.e = EPrecondition
          /\ ~Has(st.kv, src)
          /\ Finish(i, [st EXCEPT !.kv = Put(@, src, mid[i])])
       \/ /\ LooseRename
          /\ i \in DOMAIN mid
          /\ e.o.k = 1 /\ e.o.e = EPrecondition
          /\ Has(st.kv, src)
          /\ Finish(i, st)

Flag(e, b) == e.o.k = 0 /\ e.o.n = (IF b THEN 1 ELSE 0)

Session(i) ==
    LET e == Ev[i] IN
    \/ /\ e.c = CAdd /\ e.o.k = 0
       /\ e.o.ok = 1 /\ e.o.n \notin st.live
       /\ Finish(i, [st EXCEPT !.live = @ \cup {e.o.n}, !.ss = @ + 1])
    \/ /\ e.c = CRemove
       /\ Flag(e, e.a \in st.live)
       /\ Finish(i, [st EXCEPT !.live = @ \ {e.a}, !.se = @ + e.o.n])
    \/ e.c = CNextId /\ Finish(i, st)
    \* n is how many different ids the crowds have had
    \/ /\ e.c = CCrowd /\ e.o.k = 0 /\ e.o.ok = 1 /\ e.o.n = st.crowd + e.a
       /\ Finish(i, [st EXCEPT !.crowd = e.o.n, !.ss = @ + e.a])
    \/ /\ e.c = CLeave /\ e.o.k = 0 /\ e.o.n = st.crowd
       /\ Finish(i, [st EXCEPT !.crowd = 0, !.se = @ + e.o.n])

Subscription(i) ==
    LET e == Ev[i] IN
    \/ /\ e.c = CSub
       /\ Flag(e, << e.a, e.b >> \notin st.subs)
       /\ Finish(i, [st EXCEPT !.subs = @ \cup {<< e.a, e.b >>}, !.known = @ \cup {e.a},
                               !.chans = @ \cup (IF e.o.ch = 0 THEN {} ELSE {<< e.o.ch, e.a, e.b, 1 >>})])
    \/ /\ e.c = CUnsub
       /\ Flag(e, << e.a, e.b >> \in st.subs)
       /\ Finish(i, [st EXCEPT !.subs = @ \ {<< e.a, e.b >>},
                               !.chans = {IF x[2] = e.a /\ x[3] = e.b /\ x[4] = 1 THEN << x[1], x[2], x[3], 2 >>
                                          ELSE x : x \in @}])
    \/ /\ e.c = CHas
       /\ Flag(e, << e.a, e.b >> \in st.subs)
       /\ Finish(i, st)
    \/ /\ e.c = CDrop
       \* a session that has subscribed before may be known without subscriptions
       /\ \/ Flag(e, e.a \in st.known)
          \/ Flag(e, TRUE) /\ \E s \in st.subs : s[1] = e.a
          \/ Flag(e, FALSE) /\ ~\E s \in st.subs : s[1] = e.a
       /\ Finish(i, [st EXCEPT !.subs = {s \in @ : s[1] # e.a}, !.known = @ \ {e.a},
                               !.chans = {IF x[2] = e.a /\ x[4] = 1 THEN << x[1], x[2], x[3], 0 >>
                                          ELSE x : x \in @}])
    \/ /\ e.c = COpen
       \* open while subscribed, closed once the session is removed
       /\ \E x \in st.chans : x[1] = e.a /\ (x[4] = 2 \/ Flag(e, x[4] = 1))
       /\ Finish(i, st)

Over == done = 1..N

Agrees == /\ EqKV(st.kv, Entries(Hist[h].fin))
          /\ Hist[h].n # <<>> => Hist[h].n[3] = st.ss /\ Hist[h].n[4] = st.se

Next == /\ \/ ~Over /\ \E i \in 1..N : Free(i) /\ (Whole(i) \/ TwoStep(i) \/ Rename(i) \/ Session(i) \/ Subscription(i))
           \/ Over /\ Agrees /\ PrintT(<< "ACC", Hist[h].id, N >>) /\ UNCHANGED << done, mid, st >>
        /\ UNCHANGED h

Spec == Init /\ [][Next]_vars
=============================================================================
