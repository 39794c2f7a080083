------------------------------- MODULE Timer -------------------------------
(* A timer: fresh, running or stopped, with the times at which it was started *)
(* and stopped, as seconds and nanoseconds of a clock that never goes back.   *)
EXTENDS Naturals, Sequences, TLC

CStart == 0
CStop == 1
CDuration == 2
CRunning == 3
CReset == 4
CCloned == 5     \* the timer is replaced with a copy of itself
CAside == 6      \* a copy of the timer was used

CONSTANT Sec     \* nanoseconds in a second

\* Times are << seconds, nanoseconds >>.
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Minus(x, y) == IF ~Leq(y, x) THEN << 0, 0 >>
               ELSE IF x[2] >= y[2] THEN << x[1] - y[1], x[2] - y[2] >>
               ELSE << x[1] - y[1] - 1, Sec + x[2] - y[2] >>

\* s: 0 fresh, 1 running, 2 stopped; a call reads the clock somewhere between
\* lo and hi, which are all that is known of it.
Fresh == [s |-> 0, start |-> << >>, d |-> << >>]

\* Whether a timer t, called c between lo and hi, may answer o, ...
Allows(t, c, lo, hi, o) ==
    CASE c = CStart -> o.b = (IF t.s = 0 THEN 1 ELSE 0)
      [] c = CRunning -> o.b = (IF t.s = 1 THEN 1 ELSE 0)
      [] c = CDuration -> o.d = t.d
      [] c = CStop -> IF t.s # 1 THEN o.d = << >>
                      ELSE /\ o.d # << >>
                           /\ Leq(Minus(lo, t.start[2]), o.d)
                           /\ Leq(o.d, Minus(hi, t.start[1]))
      [] OTHER -> TRUE
\* ... and what it is then.
Then(t, c, lo, hi, o) ==
    CASE c = CStart /\ t.s = 0 -> [s |-> 1, start |-> << lo, hi >>, d |-> << >>]
      [] c = CStop /\ t.s = 1 -> [t EXCEPT !.s = 2, !.d = o.d]
      [] c = CReset -> Fresh
      [] OTHER -> t
=============================================================================
