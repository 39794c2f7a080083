----------------------------- MODULE TraceBulk ------------------------------
(* Checks histories of requests of any size, recorded from one engine, from   *)
(* its parsers, or over a connection, against Bulk.                           *)
EXTENDS Bulk, Json, IOUtils

\* An event is a request with
\*   o  its outcome, s what is new or different in the store after it, g what is gone,
\*   q  the request as its reader sees it, b as whoever built it does, w << bytes fed, bytes taken >> for the
\*      request parser (0: asks for more),
\*   p  << bytes fed, bytes asked for >> for the response decoder (0: decoded),
\*      z the size of the response, d what was decoded
Hist == ndJsonDeserialize(IOEnv.HIST)
Mode == IOEnv.MODE      \* "store", "request", "built", "response" or "served"



VARIABLES h, i, kv, ok

Ev == Hist[h].ev
\* The contents after an event: what changed, the rest being as it was.
Snap(e) == [k \in {p.n : p \in Range(e.s)} \cup (DOMAIN kv \ Range(e.g)) |->
              IF \E p \in Range(e.s) : p.n = k
              THEN AsValue((CHOOSE p \in Range(e.s) : p.n = k).x) ELSE kv[k]]

Outcome(e, res) ==
    /\ e.o.k = res.k
    /\ IF res.k = 0 THEN ObservedIs(e.c, e.o.v, res.v) ELSE e.o.e = res.e

SameRequest(q, e) == q.c = e.c /\ q.k = e.k /\ q.n = e.n /\ q.a = e.a

Parsed(e) ==
    LET all == RequestSize(e)
    IN /\ SameRequest(e.q, e)
       /\ \A j \in 1..Len(e.w) : e.w[j][2] = IF e.w[j][1] >= all THEN all ELSE 0

\* The response of an outcome that is an error isn't written by the engine.
Decoded(e) ==
    e.o.k = 0 =>
      LET all == 4 + BodySize(e.c, IF e.c = CKeys THEN V(KList, Range(e.o.v.v)) ELSE AsValue(e.o.v))
      IN /\ e.z = all
         /\ \A j \in 1..Len(e.p) :
               IF e.p[j][1] >= all THEN e.p[j][2] = 0
               ELSE e.p[j][2] \in 1..(IF e.p[j][1] < 4 THEN 4 ELSE all) - e.p[j][1]
         /\ ObservedIs(e.c, e.d, IF e.c = CKeys THEN V(KList, Range(e.o.v.v)) ELSE AsValue(e.o.v))

Right(e, res) ==
    CASE Mode = "store" -> Outcome(e, res) /\ EqKV(Snap(e), res.kv)
      [] Mode = "served" -> Outcome(e, res)
      [] Mode = "request" -> Parsed(e)
      [] Mode = "built" -> SameRequest(e.b, e)
      [] Mode = "response" -> Decoded(e)

Expected(e, res) ==
    CASE Mode = "request" -> << "size", RequestSize(e) >>
      [] Mode = "response" -> << "size", e.z >>
      [] OTHER -> IF res.k = 0 THEN << "value", res.v >> ELSE << "error", res.e >>

Init == /\ h \in 1..Len(Hist)
        /\ i = 1
        /\ kv = NoKeys
        /\ ok = TRUE

\* A value put there by the program that embeds the engine.
Given(e) == Put(kv, e.n, AsValue(e.x))

Next == /\ ok
        /\ i <= Len(Ev)
        /\ LET e == Ev[i]
               given == e.c = 200
               res == IF given THEN Ok(Given(e), V(KBool, <<1>>)) ELSE BExec(kv, e)
               good == given \/ Right(e, res)
           IN /\ ok' = good
              /\ IF ~good
                 THEN /\ PrintT(<< "REJ", Hist[h].id, i >>)
                      /\ PrintT(<< "WANT", Hist[h].id, Expected(e, res) >>)
                 ELSE i = Len(Ev) => PrintT(<< "ACC", Hist[h].id, i >>)
              /\ kv' = IF Mode \in {"store", "served"} THEN res.kv ELSE kv
        /\ i' = i + 1
        /\ UNCHANGED h

Spec == Init /\ [][Next]_<< h, i, kv, ok >>
=============================================================================
