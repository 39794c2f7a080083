----------------------------- MODULE TraceServer -----------------------------
(* Checks what clients of a real server sent and received. A connection keeps  *)
(* the bytes that aren't a whole request yet; every whole request is run on    *)
(* the one store, and answered, at once and in order; what can't be a request  *)
(* is answered with the error and forgotten. A connection that ended without   *)
(* waiting has had some of its whole requests run, at any time.                *)
EXTENDS Hop, Json, IOUtils

W == INSTANCE Resp

\* A history has up (whether the server ran to the end), nd (whether some
\* connection didn't wait) and ev. An event has op, t (connection), b (bytes
\* sent), o (bytes received after that). op 0: sent. 1: sent, then no more.
\* 2: sent, then gone. 3: as 1, but b has bytes behind a malformed request.
\* 5: f = 1 begins a time in which new connections may have to wait. 6: waited.
Hist == ndJsonDeserialize(IOEnv.HIST)

\* mid: how much of event i is done already, when others take effect between
\* its requests: << whether any is, the answers >>.
VARIABLES h, i, st, bufs, pend, owed, served, tight, ok, mid
vars == << h, i, st, bufs, pend, owed, served, tight, ok, mid >>

Ev == Hist[h].ev
At(f, t, default) == IF t \in DOMAIN f THEN f[t] ELSE default
With(f, t, x) == [k \in DOMAIN f \cup {t} |-> IF k = t THEN x ELSE f[k]]
Without(f, t) == [k \in DOMAIN f \ {t} |-> f[k]]

AnswerOf(c, res) == [r |-> 0, c |-> c, res |-> res]
ErrorOf(b, e) == [r |-> 1, b |-> b, e |-> e]

RECURSIVE Drain(_, _, _)
\* Runs the whole requests in a buffer: << rest, store, answers >>.
Drain(b, s, out) ==
    LET p == W!Parse(b)
    IN CASE p.r = 0 -> << b, s, out >>
         [] p.r = 1 -> << <<>>, s, Append(out, ErrorOf(b, p.e)) >>
         [] p.r = 2 -> LET res == Exec(s, p)
                       IN Drain(SubSeq(b, p.n + 1, Len(b)), After(s, res), Append(out, AnswerOf(p.c, res)))

RECURSIVE Whole(_, _)
\* The whole requests in a buffer.
Whole(b, out) == LET p == W!Parse(b)
                 IN IF p.r = 2 THEN Whole(SubSeq(b, p.n + 1, Len(b)), Append(out, p)) ELSE out

RECURSIVE Frames(_, _)
Frames(o, out) ==   \* << responses, whether there is nothing else >>
    IF o = <<>> THEN << out, TRUE >>
    ELSE IF Len(o) < 4 THEN << out, FALSE >>
    ELSE LET n == 4 + W!U32(o, 1)
         IN IF Len(o) < n THEN << out, FALSE >>
            ELSE Frames(SubSeq(o, n + 1, Len(o)), Append(out, SubSeq(o, 1, n)))

ValueIs(c, d, v) ==
    /\ d.t = v.t
    /\ ~d.dup
    /\ CASE c = CStats -> d.v \subseteq v.v /\ \A p \in v.v : p[2] # Zero8 => p \in d.v
         [] c = CKeys -> SameSet(d.v, v.v)
         [] OTHER -> d.v = v.v

Answers(f, a) ==
    LET d == W!Decode(f)
    IN /\ d.r # 0
       /\ d.n = Len(f)
       /\ IF a.r = 1 THEN d.r = 3 /\ (d.e = a.e \/ W!Excused(a.b, d.e))
          ELSE IF a.res.k = 1 THEN d.r = 2 /\ d.e = a.res.e
          ELSE d.r = 1 /\ ValueIs(a.c, d, a.res.v)

AllOf(o, out) == LET fs == Frames(o, <<>>)
                 IN fs[2] /\ Len(fs[1]) = Len(out) /\ \A j \in 1..Len(out) : Answers(fs[1][j], out[j])
\* Those, and perhaps more refusals.
AtLeast(o, out) == LET fs == Frames(o, <<>>)
                   IN /\ fs[2] /\ Len(fs[1]) >= Len(out)
                      /\ \A j \in 1..Len(out) : Answers(fs[1][j], out[j])
                      /\ \A j \in Len(out) + 1..Len(fs[1]) : W!Decode(fs[1][j]).r = 3

Init == /\ h \in 1..Len(Hist)
        /\ i = 1 /\ st = NewStore /\ ok = TRUE /\ tight = FALSE
        /\ bufs = [t \in {} |-> <<>>] /\ pend = [t \in {} |-> <<>>] /\ owed = [t \in {} |-> <<>>]
        /\ served = {} /\ mid = << FALSE, <<>> >>

\* What there is of the connection's bytes with those of event e.
Given(e) == At(bufs, e.t, <<>>) \o (IF mid[1] THEN <<>> ELSE e.b)

Event ==
    LET e == Ev[i]
        q == Drain(Given(e), st, mid[2])
        late == e.op = 0 /\ tight /\ e.t \notin served /\ e.o = <<>> /\ q[3] # <<>>
        good == CASE e.op = 5 \/ e.op = 2 -> TRUE
                  [] e.op = 6 -> AllOf(e.o, At(owed, e.t, <<>>))
                  [] e.op = 3 -> AtLeast(e.o, q[3])
                  [] OTHER -> late \/ AllOf(e.o, q[3])
    IN /\ i <= Len(Ev)
       /\ i' = i + 1
       /\ mid' = << FALSE, <<>> >>
       /\ ok' = good
       /\ tight' = IF e.op = 5 THEN e.f = 1 ELSE tight
       /\ IF e.op = 2
          THEN /\ pend' = With(pend, e.t, Whole(At(bufs, e.t, <<>>) \o e.b, <<>>))
               /\ bufs' = Without(bufs, e.t)
               /\ UNCHANGED << st, owed, served >>
          ELSE IF e.op \in {5, 6} THEN UNCHANGED << st, bufs, pend, owed, served >>
          ELSE /\ st' = q[2]
               /\ bufs' = IF e.op = 0 THEN With(bufs, e.t, q[1]) ELSE Without(bufs, e.t)
               /\ owed' = IF late THEN With(owed, e.t, q[3]) ELSE owed
               /\ served' = IF q[3] # <<>> /\ ~late THEN served \cup {e.t} ELSE served
               /\ UNCHANGED pend
       /\ (~good /\ Hist[h].nd = 0) =>
             /\ PrintT(<< "REJ", Hist[h].id, i >>)
             /\ PrintT(<< "WANT", Hist[h].id, q[3] >>)
       /\ (good /\ i = Len(Ev) /\ Hist[h].up = 1) => PrintT(<< "ACC", Hist[h].id, i >>)

\* A whole request of a connection that is gone takes effect, or none more do.
Belated ==
    \E t \in DOMAIN pend :
        /\ pend[t] # <<>>
        /\ \/ /\ st' = After(st, Exec(st, Head(pend[t])))
              /\ pend' = With(pend, t, Tail(pend[t]))
           \/ /\ st' = st
              /\ pend' = With(pend, t, <<>>)
        /\ i <= Len(Ev)
        /\ UNCHANGED << i, bufs, owed, served, tight, ok, mid >>

\* One request of several, while others may take effect before the next.
Part ==
    /\ i <= Len(Ev)
    /\ Ev[i].op \in {0, 1, 3}
    /\ \E t \in DOMAIN pend : pend[t] # <<>>
    /\ LET e == Ev[i]
           b == Given(e)
           p == W!Parse(b)
       IN /\ p.r = 2
          /\ LET res == Exec(st, p)
             IN /\ st' = After(st, res)
                /\ mid' = << TRUE, Append(mid[2], AnswerOf(p.c, res)) >>
          /\ bufs' = With(bufs, e.t, SubSeq(b, p.n + 1, Len(b)))
    /\ UNCHANGED << i, pend, owed, served, tight, ok >>

Next == ok /\ (Event \/ Part \/ Belated) /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
=============================================================================
