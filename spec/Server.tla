------------------------------- MODULE Server -------------------------------
(* The server: connections whose bytes arrive in pieces, a task for each that  *)
(* reads some, runs every whole request on the one store and writes its        *)
(* answer before the next, and an accept loop that may be out of sockets.      *)
EXTENDS Hop

W == INSTANCE Resp

CONSTANTS Conns,    \* connections
          Limit,    \* how many there can be at a time
          Chunk     \* how much one read takes at most

VARIABLES stream,   \* what each client is going to send
          sent,     \* how much of it was sent,
          read,     \*   read by the task,
          taken,    \*   and done with
          phase,    \* "new", "waiting" to be accepted, "open", "gone" (server's side)
          client,   \* "up", "done" (sends no more), "away" (reset)
          out,      \* the answers written
          log,      \* the requests run: << connection, request, outcome >>
          st        \* the store

svars == << stream, sent, read, taken, phase, client, out, log, st >>

Buffer(c) == SubSeq(stream[c], taken[c] + 1, read[c])
Open == {c \in Conns : phase[c] = "open"}

SInit ==
    /\ sent = [c \in Conns |-> 0] /\ read = sent /\ taken = sent
    /\ phase = [c \in Conns |-> "new"] /\ client = [c \in Conns |-> "up"]
    /\ out = [c \in Conns |-> <<>>] /\ log = <<>> /\ st = NewStore

(* Clients *)
Connect(c) == /\ phase[c] = "new"
              /\ phase' = [phase EXCEPT ![c] = "waiting"]
              /\ UNCHANGED << stream, sent, read, taken, client, out, log, st >>
Send(c, n) == /\ phase[c] \in {"waiting", "open"} /\ client[c] = "up"
              /\ n \in 1..(Len(stream[c]) - sent[c])
              /\ sent' = [sent EXCEPT ![c] = @ + n]
              /\ UNCHANGED << stream, read, taken, phase, client, out, log, st >>
Finish(c) == /\ phase[c] \in {"waiting", "open"} /\ client[c] = "up"
             /\ client' = [client EXCEPT ![c] = "done"]
             /\ UNCHANGED << stream, sent, read, taken, phase, out, log, st >>
\* The client is gone; what it sent and wasn't read may be lost.
Reset(c) == /\ phase[c] \in {"waiting", "open"} /\ client[c] # "away"
            /\ client' = [client EXCEPT ![c] = "away"]
            /\ \E n \in read[c]..sent[c] : sent' = [sent EXCEPT ![c] = n]
            /\ UNCHANGED << stream, read, taken, phase, out, log, st >>

(* The server *)
Accept(c) == /\ phase[c] = "waiting"
             /\ Cardinality(Open) < Limit
             /\ phase' = [phase EXCEPT ![c] = "open"]
             /\ UNCHANGED << stream, sent, read, taken, client, out, log, st >>
Read(c) == /\ phase[c] = "open"
           /\ W!Parse(Buffer(c)).r = 0
           /\ read[c] < sent[c]
           /\ \E n \in 1..Chunk :
                /\ n <= sent[c] - read[c]
                /\ read' = [read EXCEPT ![c] = @ + n]
           /\ UNCHANGED << stream, sent, taken, phase, client, out, log, st >>
Step(c) ==
    /\ phase[c] = "open"
    /\ LET b == Buffer(c)
           p == W!Parse(b)
       IN /\ p.r # 0
          /\ IF p.r = 2
             THEN LET res == Exec(st, p)
                  IN /\ st' = After(st, res)
                     /\ log' = Append(log, << c, p, res >>)
                     /\ taken' = [taken EXCEPT ![c] = @ + p.n]
                     /\ out' = [out EXCEPT ![c] = Append(@, << "answer", res.k, IF res.k = 0 THEN res.v ELSE res.e >>)]
             ELSE /\ taken' = [taken EXCEPT ![c] = read[c]]
                  /\ out' = [out EXCEPT ![c] = Append(@, << "refusal", p.e >>)]
                  /\ UNCHANGED << st, log >>
    /\ UNCHANGED << stream, sent, read, phase, client >>
\* The end of what the client sends, or a failure to read or write.
End(c) == /\ phase[c] = "open"
          /\ \/ client[c] = "done" /\ read[c] = sent[c] /\ W!Parse(Buffer(c)).r = 0
             \/ client[c] = "away"
          /\ phase' = [phase EXCEPT ![c] = "gone"]
          /\ UNCHANGED << stream, sent, read, taken, client, out, log, st >>

Serve(c) == Accept(c) \/ Read(c) \/ Step(c) \/ End(c)
SNext == \E c \in Conns :
            \/ Connect(c) \/ Finish(c) \/ Reset(c) \/ Serve(c)
            \/ \E n \in 1..Len(stream[c]) : Send(c, n)

(* Strong fairness for what other connections can disable for a while.        *)
Fair == \A c \in Conns : /\ WF_svars(Read(c)) /\ WF_svars(Step(c)) /\ WF_svars(End(c)) /\ SF_svars(Accept(c))
                         /\ WF_svars(Finish(c) /\ sent[c] = Len(stream[c]))
(* With less room than connections, one waits for another to be done.         *)
Sending(c) == \E n \in 1..Len(stream[c]) : Send(c, n)
ClientsFair == \A c \in Conns : WF_svars(Sending(c))

-----------------------------------------------------------------------------
RECURSIVE Items(_, _)
\* What is in a byte string: the requests, and a refusal where it goes wrong.
Items(b, acc) == LET p == W!Parse(b)
                 IN CASE p.r = 0 -> acc
                      [] p.r = 1 -> Append(acc, p)
                      [] p.r = 2 -> Items(SubSeq(b, p.n + 1, Len(b)), Append(acc, p))
Sound(c) == \A x \in Range(Items(stream[c], <<>>)) : x.r = 2

Of(c) == SelectSeq(log, LAMBDA x : x[1] = c)
RECURSIVE Run(_, _)
Run(s, l) == IF l = <<>> THEN s ELSE Run(After(s, Exec(s, Head(l)[2])), Tail(l))

\* S01: each whole request that was read was answered once, in order, or is next.
OneEach == \A c \in Conns :
    LET items == Items(SubSeq(stream[c], 1, read[c]), <<>>)
    IN Sound(c) =>
        /\ Len(out[c]) <= Len(items)
        /\ Len(out[c]) = Len(Of(c))
        /\ \A j \in 1..Len(out[c]) : Of(c)[j][2] = items[j] /\ out[c][j][1] = "answer"
\* The answers are those of the engine to the requests in the order they were run.
Faithful == st = Run(NewStore, log)
\* S02: what was run is a prefix of the whole requests that were sent.
OnlyWhole == \A c \in Conns :
    LET items == Items(stream[c], <<>>)
    IN /\ Len(Of(c)) <= Len(items)
       /\ Sound(c) => \A j \in 1..Len(Of(c)) : Of(c)[j][2] = items[j]
       /\ ~Sound(c) => \A j \in 1..Len(Of(c)) : j < Len(items) => Of(c)[j][2] = items[j]
Refused == \A c \in Conns : Sound(c) => \A j \in 1..Len(out[c]) : out[c][j][1] = "answer"

\* S01, S02: whatever others do, what was sent is answered.
Owed(c) == /\ Sound(c) /\ phase[c] # "new" /\ client[c] # "away"
           /\ Len(out[c]) < Len(Items(SubSeq(stream[c], 1, sent[c]), <<>>))
Answered == \A c \in Conns : Owed(c) ~> (~Owed(c))
=============================================================================
