----------------------------- MODULE ServerPlans -----------------------------
(* Every way two clients of one server can cut up, interleave and end what they *)
(* send, for the real server to be driven through: each client sends a stream of*)
(* requests in up to so many segments that end anywhere, half-closes or goes    *)
(* away, and the other's segments come anywhere between. On the way: however    *)
(* the bytes are cut, the requests and answers of a connection are the same.    *)
EXTENDS Hop, Json, IOUtils

W == INSTANCE Wire
Scene == atoi(IOEnv.SCENE)
Cuts == << atoi(IOEnv.CUTS1), atoi(IOEnv.CUTS2) >>

a == <<97>>
R(c, k, args) == [c |-> c, k |-> k, a |-> args]
Stream(rs) == LET S[j \in 0..Len(rs)] == IF j = 0 THEN <<>> ELSE S[j - 1] \o W!Encode(rs[j]) IN S[Len(rs)]

\* What each connection sends.
Scenes == <<
  << Stream(<< R(CSet, KString, << a, <<120, 10>> >>), R(CGet, NoType, << a >>) >>),
     Stream(<< R(CAppend, NoType, << a, <<122>> >>) >>) >>,
  << Stream(<< R(CInc, NoType, << a >>), R(CInc, KInt, << a >>), R(CStats, NoType, <<>>) >>),
     Stream(<< R(CDec, NoType, << a >>), R(CDelete, NoType, << a >>) >>) >>,
  << Stream(<< R(CSet, KMap, << a, <<0>>, <<1>> >>), R(CEcho, NoType, <<>>) >>) \o << 127 >>,
     Stream(<< R(CKeys, NoType, << a >>) >>) \o << 139, 9 >> >>,
  << Stream(<< R(CEcho, NoType, << <<13, 1>>, <<10>> >>), R(CExists, NoType, << a, a >>) >>),
     Stream(<< R(CSet, NoType, << a, <<11, 1, 0, 0, 0, 1, 97>> >>) >>) >> >>
Streams == Scenes[Scene]

VARIABLES pos, segs, over, bufs, st, out, plan
vars == << pos, segs, over, bufs, st, out, plan >>

RECURSIVE Drain(_, _, _)
Drain(b, s, os) ==      \* << what is left, the store, the answers >>
    LET p == W!Parse(b)
    IN CASE p.r = 0 -> << b, s, os >>
         [] p.r = 1 -> << <<>>, s, Append(os, << 1, p.e >>) >>
         [] p.r = 2 -> LET res == Exec(s, p)
                       IN Drain(SubSeq(b, p.n + 1, Len(b)), After(s, res), Append(os, << 0, p >>))

Init == /\ pos = << 0, 0 >> /\ segs = << 0, 0 >> /\ over = << FALSE, FALSE >>
        /\ bufs = << <<>>, <<>> >> /\ st = NewStore /\ out = << <<>>, <<>> >> /\ plan = <<>>

\* The segments left must be able to hold the rest.
Send(c) ==
    /\ ~over[c] /\ pos[c] < Len(Streams[c])
    /\ \E to \in pos[c] + 1..Len(Streams[c]) :
        /\ segs[c] = Cuts[c] => to = Len(Streams[c])
        /\ LET b == SubSeq(Streams[c], pos[c] + 1, to)
               q == Drain(bufs[c] \o b, st, <<>>)
           IN /\ bufs' = [bufs EXCEPT ![c] = q[1]]
              /\ st' = q[2]
              /\ out' = [out EXCEPT ![c] = @ \o q[3]]
              /\ plan' = Append(plan, << c, 0, b, Len(q[3]) >>)
        /\ pos' = [pos EXCEPT ![c] = to]
        /\ segs' = [segs EXCEPT ![c] = @ + 1]
    /\ UNCHANGED over

\* The first half-closes at its end; the second may, or may be gone before it.
End(c) ==
    /\ ~over[c]
    /\ c = 1 => pos[c] = Len(Streams[c])
    /\ over' = [over EXCEPT ![c] = TRUE]
    /\ \E how \in (IF c = 1 THEN {1} ELSE IF pos[c] = Len(Streams[c]) THEN {1, 2} ELSE {2, 4}) :
         plan' = Append(plan, << c, how, <<>>, 0 >>)
    /\ UNCHANGED << pos, segs, bufs, st, out >>

Finished == over[1] /\ over[2]
Next == /\ \E c \in 1..2 : Send(c) \/ End(c)
        /\ (over'[1] /\ over'[2]) => PrintT(ToJson(plan'))
Spec == Init /\ [][Next]_vars

\* Of a stream's requests, those that have all been sent have been taken, once
\* and in order, and nothing else has; what was refused is told so.
Taken(c) == Drain(SubSeq(Streams[c], 1, pos[c]), NewStore, <<>>)
CutsDoNotMatter ==
    \A c \in 1..2 : /\ out[c] = Taken(c)[3]
                    /\ bufs[c] = Taken(c)[1]
=============================================================================
