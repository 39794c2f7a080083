------------------------------- MODULE MCResp -------------------------------
(* Round trips of a pool of responses, under every chunking, and every short   *)
(* malformed byte string of a pool.                                            *)
EXTENDS Resp, Json, IOUtils

x == <<120>>
e8 == <<64, 9, 33, 251, 84, 68, 45, 24>>
Values == << << 0, <<>> >>, << 0, <<0, 255>> >>, << 1, <<0>> >>, << 1, <<1>> >>, << 2, e8 >>, << 3, e8 >>,
             << 4, <<>> >>, << 4, <<195, 169>> >>, << 5, <<>> >>, << 5, <<x>> >>, << 5, << <<>>, x, x >> >>,
             << 6, <<>> >>, << 6, << << x, <<>> >> >> >>, << 6, << << <<>>, x >>, << x, <<1, 2>> >> >> >>,
             << 7, <<>> >>, << 7, <<x>> >>, << 7, << <<>>, x >> >> >>
Responses == [i \in 1..Len(Values) |-> Framed(Payload(Values[i][1], Values[i][2]))]
             \o [i \in 1..8 |-> Framed(<< RDispatchError, i - 1 >>)]
             \o << Framed(<< RParseError, 0 >>), Framed(<< RParseError, 1 >>) >>

VARIABLES w, b, m, out
vars == << w, b, m, out >>
\* w: 0 free bytes, otherwise the response that is sent.
Init == /\ w \in 0..Len(Responses) /\ m = RFresh /\ out = [k |-> 0, n |-> 4]
        /\ b \in (IF w = 0 THEN {<<0, 0, 0, n, t>> : n \in 0..6, t \in 0..10} ELSE {<<>>})
Alpha == {0, 1, 2}
Byte == /\ out.k = 0
        /\ IF w = 0 THEN Len(b) < (IF IOEnv.DEEP = "1" THEN 11 ELSE 10) /\ \E y \in Alpha : b' = Append(b, y)
           ELSE \E n \in Len(b) + 1..Len(Responses[w]) : b' = SubSeq(Responses[w], 1, n)
        /\ UNCHANGED << w, m, out >>
Feeding == /\ out.k = 0
           /\ LET f == DFeed(m, b) IN m' = f[1] /\ out' = f[2]
           /\ UNCHANGED << w, b >>
Next == Byte \/ Feeding
Spec == Init /\ [][Next]_vars

SoundStep == IF out'.k = 1 THEN LET d == Decode(b') IN d.r = 1 /\ d = out'.d
             ELSE Allowed(b', out')
Sound == [][(m' # m \/ out' # out) => SoundStep]_vars
WholeOnly == (w > 0 /\ out.k # 0) => Len(b) = Len(Responses[w])
NeverAsksTooMuch == [][(w > 0 /\ out' # out) => Asked(Len(Responses[w]), b', out')]_vars
RoundTrip == (w > 0 /\ w <= Len(Values) /\ out.k # 0) =>
    LET v == Values[w]
        d == Decode(b)
    IN out.k = 1 /\ d.t = v[1] /\ d.n = Len(b)
       /\ (IF v[1] \in {6, 7} THEN d.v = Range(v[2]) ELSE d.v = v[2])
=============================================================================
