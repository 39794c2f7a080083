------------------------------ MODULE TraceCli ------------------------------
(* Checks what lines were parsed as, and what running them printed.            *)
EXTENDS Cli, Json, IOUtils

Cl == INSTANCE Client
W == INSTANCE Wire

\* An event has op: 0 a line (l) parsed, with the outcome o; 1 a line run; 2 a call
\* (m, t, a, v) on the same client; 3 what a byte stands for and is called;
\* 4 what a text (l) names; 9 there was no client. f are the floats that
\* the line's arguments read as, n the counters just before a line of statistics.
\* Outcomes o.k: 0 a request or a text (b, and s if it is plain), 1 it is refused
\* as e, with x and t, in the words d; 2 the server's error e; 3 another failure;
\* 4 a panic; 5 no end; 6 the tool ended.
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, st, ok
vars == << h, i, st, ok >>
Ev == Hist[h].ev

Contains(s, p) == \E j \in 0..(Len(s) - Len(p)) : SubSeq(s, j + 1, j + Len(p)) = p
RefusedOk(no, o) ==
    \E x \in no : /\ o.e = x.e /\ o.x = x.x /\ (x.e = ArgumentInvalid => o.t = x.t)
                  /\ Contains(o.d, o.x)
                  /\ x.e = ArgumentInvalid => Contains(o.d, NameOf(x.t))

SameArgs(r, a) == /\ Len(r.a) = Len(a)
                  /\ \A j \in 1..Len(a) : a[j] = r.a[j] \/ (r.k = KFloat /\ Len(a[j]) = 8 /\ FCanon(a[j]) = r.a[j])
\* The request is the line's, as its parts and as bytes.
ParsedOk(e) ==
    LET p == Reading(e.l, e.f)
    IN IF p.no # {} THEN e.o.k = 1 /\ RefusedOk(p.no, e.o)
       ELSE LET q == W!Parse(e.o.w)
            IN /\ e.o.k = 0
               /\ e.o.c = p.r.c /\ e.o.t = p.r.k /\ e.o.n = Len(p.r.a)
               /\ SameArgs(p.r, e.o.a)
               /\ e.o.key = (IF e.o.a = <<>> \/ p.r.c \in {CEcho, CStats, CExists, CIs} THEN e.o.key ELSE e.o.a[1])
               /\ q.r = 2 /\ q.n = Len(e.o.w) /\ q.c = p.r.c /\ q.k = p.r.k
               /\ q.a = e.o.a

Said(srv, o, ws) == o.k = 0 /\ o.s # "" /\ o.s \in ws
ErrorIs(srv, o, err) == Said(srv, o, {Words(err)}) \/ (srv = 1 /\ o.k = 2 /\ o.e = err)

\* Requests of keys without a type may be made for one of maps, and the reverse.
Answers(s, r) == { Exec(s, r) } \cup (IF r.c = CKeys /\ r.k = KMap THEN { Exec(s, [r EXCEPT !.k = NoType]) } ELSE {})

RunOk(srv, s, e) ==
    LET p == Reading(e.l, e.f)
    IN IF p.no # {} THEN (e.o.k = 1 /\ RefusedOk(p.no, e.o)) \/ e.o.k = 6
       ELSE \/ Faults(p.r) # {} /\ Said(srv, e.o, Faults(p.r))
            \/ \E res \in Answers(s, p.r) :
                  IF res.k = 1 THEN ErrorIs(srv, e.o, res.e)
                  ELSE /\ e.o.k = 0
                       /\ IF p.r.c = CStats THEN ShowsStats(e.n, e.o.b)
                          ELSE ShowsAnswer(p.r, res.v, e.o.b, e.o.f)
RunAfter(s, e) ==
    LET p == Reading(e.l, e.f)
    IN IF p.no # {} \/ Faults(p.r) # {} THEN s ELSE After(s, Exec(s, p.r))

\* A byte that is a command's: it has one name, that is shown and names it.
Called(e) ==
    LET mine == {p[1] : p \in {q \in CommandNames : q[2] = e.b}}
    IN IF mine = {} THEN e.o.k = 1
       ELSE e.o.k = 0 /\ e.o.c = e.b /\ e.o.n \in mine /\ e.o.d = e.o.n /\ e.o.f = e.b
Names(e) ==
    LET c == Named2(CommandNames, e.l)
    IN e.o.c = (IF c = {} THEN -1 ELSE One(c))

Call(e) == [m |-> e.m, t |-> e.t, a |-> e.a, v |-> e.v, raw |-> 0]

Init == h \in 1..Len(Hist) /\ i = 1 /\ st = NewStore /\ ok = TRUE
Next == /\ ok /\ i <= Len(Ev) /\ i' = i + 1 /\ UNCHANGED h
        /\ LET e == Ev[i]
               good == CASE e.op = 0 -> ParsedOk(e)
                         [] e.op = 1 -> RunOk(Hist[h].srv, st, e)
                         [] e.op = 2 -> Cl!CallOk(st, Call(e), e.o)
                         [] e.op = 3 -> Called(e)
                         [] e.op = 4 -> Names(e)
                         [] OTHER -> FALSE
           IN /\ ok' = good
              /\ st' = CASE e.op = 1 -> RunAfter(st, e)
                         [] e.op = 2 -> Cl!CallAfter(st, Call(e))
                         [] OTHER -> st
              /\ IF good THEN i = Len(Ev) => PrintT(<< "ACC", Hist[h].id, i >>)
                 ELSE /\ PrintT(<< "REJ", Hist[h].id, i >>)
                      /\ PrintT(<< "WANT", Hist[h].id,
                             IF e.op \in {0, 1} THEN << Reading(e.l, e.f), IF e.op = 1 /\ Reading(e.l, e.f).no = {} THEN Exec(st, Reading(e.l, e.f).r) ELSE 0 >> ELSE 0 >>)
Spec == Init /\ [][Next]_vars
=============================================================================
