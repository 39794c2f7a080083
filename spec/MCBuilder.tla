----------------------------- MODULE MCBuilder -----------------------------
(* Every sequence of additions out of a pool, with room for a few arguments.  *)
EXTENDS Builder, IOUtils
x == <<120>>
y == <<0, 255>>
Bytes0 == {<<>>, x, y}
V(t, v) == [t |-> t, v |-> v]
Vals == {V(0, <<>>), V(0, y), V(1, <<0>>), V(3, <<0, 0, 0, 0, 0, 0, 0, 5>>), V(4, <<>>), V(4, x),
         V(5, <<>>), V(5, <<x>>), V(5, <<x, x, y>>), V(5, <<x, <<>>>>), V(6, <<>>), V(6, << <<x, y>> >>),
         V(6, << <<x, y>>, <<y, x>> >>), V(6, << <<x, <<>>>> >>), V(7, <<>>), V(7, <<x, y>>)}
VARIABLES s, r
Init == r = 0 /\ s \in {New(c, t) : c \in {0, 10, CmdStats}, t \in {NoType, 0, 7}}
Add(op, b, v) ==
    LET no == Refusals(s, op, b, v) IN
    IF no # {} THEN r' \in no /\ UNCHANGED s
    ELSE /\ r' = 0
         /\ \E added \in (IF op = 1 THEN {<<b>>} ELSE IF Scalar(v) THEN {<<v.v>>}
                          ELSE IF v.t = 5 THEN {v.v}
                          ELSE IF v.t = 7 THEN {q \in [1..Len(v.v) -> Range(v.v)] : Range(q) = Range(v.v)}
                          ELSE {Flat(q, 1) : q \in {p \in [1..Len(v.v) -> Range(v.v)] : Range(p) = Range(v.v)}}) :
              s' = [s EXCEPT !.a = @ \o added]
Next == \/ \E b \in Bytes0 : Add(1, b, V(0, <<>>))
        \/ \E v \in Vals : Add(2, <<>>, v)
Spec == Init /\ [][Next]_<< s, r >>
Formed == WellFormed(s)
RoundTrip == Reads(s, Encoded(s))
\* Any two ranges that meet make up the whole, and none reaches outside it.
Ranges == \A k \in 0..Len(s.a) + 1 :
    /\ Ranged(s, << 0, 0, 2, k >>) \o Ranged(s, << 1, k, 0, 0 >>) = s.a
    /\ Ranged(s, << 0, 0, 1, k >>) \o Ranged(s, << 2, k, 0, 0 >>) = s.a
    /\ k <= Len(s.a) => Ranged(s, << 1, k + 1, 2, k >>) = <<>>
    /\ k \in 1..Len(s.a) => Ranged(s, << 1, k - 1, 1, k - 1 >>) = << s.a[k] >>
Unchanged == [][r' # 0 => s' = s]_<< s, r >>
Written == [][\A v \in Vals : (s' # s /\ Len(s'.a) = Len(s.a) + Size(v) /\ ~IsEmpty(v) /\ v.t \in {5, 6, 7}
                               /\ Writes(v, SubSeq(s'.a, Len(s.a) + 1, Len(s'.a))))
                              => Range(SubSeq(s'.a, Len(s.a) + 1, Len(s'.a))) \subseteq
                                 (IF v.t = 6 THEN UNION {Range(p) : p \in Range(v.v)} ELSE Range(v.v))]_<< s, r >>
=============================================================================
