-------------------------------- MODULE Many --------------------------------
(* Sessions, subscriptions, requests and their statistics by the hundred: one *)
(* step subscribes (or looks up, or removes) every session of a range to      *)
(* every key of a range. The rules are those of Lin, one at a time.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* subs: a set of << session, key >>, keys being << family, number >>.
\* chans: for each subscription ever made, << session, key, status >>, the
\*   status 1 while subscribed, 0 once the session was removed, 2 once it was
\*   unsubscribed (nothing is specified about it from then on).
\* added: for each session added, << id, whether it is there >>.
\* counts: requests answered, requests refused, sessions added, sessions removed.
Start == [subs |-> {}, known |-> {}, chans |-> <<>>, added |-> <<>>, counts |-> << 0, 0, 0, 0 >>]

\* All sessions of a range with all keys of a range, keys changing fastest.
Width(e) == e.y1 - e.y0 + 1
Cells(e) == (e.x1 - e.x0 + 1) * Width(e)
Session(e, i) == e.x0 + ((i - 1) \div Width(e))
Key(e, i) == << e.f, e.y0 + ((i - 1) % Width(e)) >>
Pairs(e) == {<< s, << e.f, k >> >> : s \in e.x0..e.x1, k \in e.y0..e.y1}

Bit(b) == IF b THEN 1 ELSE 0
Bits(b) == Len(SelectSeq(b, LAMBDA x : x = 1))

Subscribed(st, e) == [i \in 1..Cells(e) |-> Bit(<< Session(e, i), Key(e, i) >> \in st.subs)]
Flip(s) == [i \in 1..Len(s) |-> 1 - s[i]]

\* The subscriptions made, in order.
Made(st, e) == LET new == SelectSeq([i \in 1..Cells(e) |-> << Session(e, i), Key(e, i), 1 >>],
                                    LAMBDA x : << x[1], x[2] >> \notin st.subs)
               IN new

Subscribe(st, e) == [st EXCEPT !.subs = @ \cup Pairs(e), !.known = @ \cup (e.x0..e.x1), !.chans = @ \o Made(st, e)]
Unsubscribe(st, e) ==
    LET gone == Pairs(e) \cap st.subs
    IN [st EXCEPT !.subs = @ \ gone,
                  !.chans = [i \in 1..Len(@) |-> IF @[i][3] = 1 /\ << @[i][1], @[i][2] >> \in gone
                                                 THEN << @[i][1], @[i][2], 2 >> ELSE @[i]]]
RemoveAll(st, e) ==
    [st EXCEPT !.subs = {p \in @ : p[1] \notin e.x0..e.x1}, !.known = @ \ (e.x0..e.x1),
               !.chans = [i \in 1..Len(@) |-> IF @[i][3] = 1 /\ @[i][1] \in e.x0..e.x1
                                              THEN << @[i][1], @[i][2], 0 >> ELSE @[i]]]

\* Whether removing a session may say so: it must if it had subscriptions, and
\* may only if it ever had.
RemoveSays(st, e, o) ==
    LET with == {p[1] : p \in st.subs}
    IN /\ Len(o) = e.x1 - e.x0 + 1
       /\ \A i \in 1..Len(o) : /\ o[i] = 1 => e.x0 + i - 1 \in st.known
                               /\ o[i] = 0 => e.x0 + i - 1 \notin with

OpenSays(st, e, o) ==
    /\ Len(o) = e.x1 - e.x0 + 1
    /\ \A i \in 1..Len(o) : LET c == st.chans[e.x0 + i - 1] IN c[3] = 2 \/ o[i] = c[3]

Live(st) == {st.added[i][1] : i \in {j \in 1..Len(st.added) : st.added[j][2] = 1}}
AddSays(st, e, o) ==
    /\ Len(o) = e.x1
    /\ Cardinality({o[i] : i \in 1..Len(o)}) = Len(o)
    /\ {o[i] : i \in 1..Len(o)} \cap Live(st) = {}
Add(st, e, o) == [st EXCEPT !.added = @ \o [i \in 1..Len(o) |-> << o[i], 1 >>], !.counts[3] = @ + Len(o)]
\* The sessions added are removed by their number.
TakeSays(st, e, o) ==
    o = [i \in 1..e.x1 - e.x0 + 1 |-> st.added[e.x0 + i - 1][2]]
Take(st, e, o) == [st EXCEPT !.added = [i \in 1..Len(@) |-> IF i \in e.x0..e.x1 THEN << @[i][1], 0 >> ELSE @[i]],
                             !.counts[4] = @ + Bits(o)]
=============================================================================
