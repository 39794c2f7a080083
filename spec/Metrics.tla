------------------------------ MODULE Metrics ------------------------------
(* The metrics library: counters, gauges, snapshots, and handles that don't   *)
(* keep the instance alive. An operation on a handle is two moments: it finds *)
(* the instance, which it then keeps, and it takes effect.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == -1

\* cnt and gau: what is counted and gauged so far; own: whether the owner has
\* it; pins: operations (of any kind) that keep the instance for a moment.
NewMetrics == [own |-> TRUE, pins |-> {}, cnt |-> [k \in {} |-> 0], gau |-> [k \in {} |-> 0]]

Alive(m) == m.own \/ m.pins # {}
Read(f, k) == IF k \in DOMAIN f THEN f[k] ELSE None
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Pin(m, i) == [m EXCEPT !.pins = @ \cup {i}]
Unpin(m, i) == [m EXCEPT !.pins = @ \ {i}]
Count(m, k) == [m EXCEPT !.cnt = With(@, k, (IF k \in DOMAIN @ THEN @[k] ELSE 0) + 1)]
Gauge(m, k, v) == [m EXCEPT !.gau = With(@, k, v)]
=============================================================================
