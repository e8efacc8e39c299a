---------------------------- MODULE TimeStep ----------------------------
(* Time steppers, the adaptive time step control and the saving schedule. *)
(* Times are integers: ticks since t0, TOL bounds their rounding.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT TOL
Near(a, b) == a - b <= TOL /\ b - a <= TOL
\* a * n / d rounded; d > 0.
Scale(a, n, d) == (2 * a * n + d) \div (2 * d)

---------------------------------------------------------------------------
(* The stepper with fixed steps: n steps, h ticks apart.                   *)
FixedInit(n, h) == [n |-> n, h |-> h, step |-> 0, time |-> 0, nt |-> 0, sub |-> FALSE]
FAt(s, k) == [s EXCEPT !.step = k, !.time = k * s.h, !.nt = k * s.h]
\* Index denoted by a possibly negative one, -1 if there is none.
FIndex(s, k) == IF k >= 0 /\ k < s.n THEN k
                ELSE IF k < 0 /\ k + s.n >= 0 THEN k + s.n ELSE -1
FSetStep(s, k) == IF FIndex(s, k) < 0 THEN s ELSE FAt(s, FIndex(s, k))
FAdvance(s) == IF s.step < s.n - 1 THEN FAt(s, s.step + 1) ELSE s
FSub(s, dt) == [s EXCEPT !.time = s.time + dt, !.sub = TRUE]
FRestore(s) == [s EXCEPT !.time = s.step * s.h, !.sub = FALSE]

(* The stepper with variable steps; t1 is the final time.                  *)
VarInit(t1, dt0) == [t1 |-> t1, dt0 |-> dt0, dt |-> dt0, times |-> <<0>>]
VStep(s) == Len(s.times) - 1
VTime(s) == s.times[Len(s.times)]
VAdvance(s) == [s EXCEPT !.times = Append(s.times, VTime(s) + s.dt)]
VSetDt(s, dt, update) ==
  LET n == Len(s.times) IN
  [s EXCEPT !.dt = dt,
            !.times = IF update /\ n > 1
                      THEN [@ EXCEPT ![n] = s.times[n - 1] + dt] ELSE @]
VReset(s) == [s EXCEPT !.times = <<0>>]
VDone(s) == VTime(s) + TOL >= s.t1

---------------------------------------------------------------------------
(* The built-in adaptivity: c = [dt0, rn/rd, mn/md, in/id, wait].          *)
\* Outcomes of a nonlinear solve: "easy", "hard" (converged), "fail".
CanReduce(c, dt) == dt * c.rn * c.md >= c.dt0 * c.mn * c.rd
Adapted(c, dt, wait, out) ==
  IF out = "fail" THEN
    IF CanReduce(c, dt)
    THEN [retry |-> TRUE, dt |-> Scale(dt, c.rn, c.rd), wait |-> 0]
    ELSE [retry |-> FALSE, dt |-> dt, wait |-> 0]
  ELSE IF out = "hard" THEN [retry |-> FALSE, dt |-> dt, wait |-> 0]
  ELSE IF wait + 1 <= c.wait THEN [retry |-> FALSE, dt |-> dt, wait |-> wait + 1]
  ELSE [retry |-> FALSE, wait |-> 0,
        dt |-> IF dt < c.dt0 THEN Scale(dt, c.inn, c.ind) ELSE dt]

(* Controllers of the elastodynamic solvers.  The scaled error is se^2,    *)
(* se = en/ed: accepted iff se <= 1; the proposed factor is                *)
(* safety / se limited by fmax resp. fmin, c.f* are percents.              *)
Proposed(c, dt, en, ed) ==
  LET raw == IF ed > 10 * en THEN dt * 10 ELSE Scale(dt * c.fs, ed, en * 100)
      up == Scale(dt, c.fmax, 100)
      lo == Scale(dt, c.fmin, 100)
      accept == en <= ed IN
  CASE c.ctrl = "pid" -> IF raw > up THEN up ELSE IF raw < lo THEN lo ELSE raw
    [] OTHER -> IF accept THEN (IF raw > up THEN up ELSE raw)
                ELSE (IF raw < lo THEN lo ELSE raw)
Controlled(c, dt, wait, en, ed) ==
  LET new == Proposed(c, dt, en, ed)
      accept == en <= ed IN
  IF c.ctrl # "linear"
  THEN [retry |-> ~accept, dt |-> new, wait |-> 0]
  ELSE IF ~accept THEN [retry |-> TRUE, dt |-> Scale(new, c.fred, 100), wait |-> 0]
  ELSE IF wait >= c.wait
  THEN IF new * 100 >= dt * c.minf
       THEN [retry |-> FALSE, dt |-> new, wait |-> 0]
       ELSE [retry |-> FALSE, dt |-> dt, wait |-> wait]
  ELSE [retry |-> FALSE, dt |-> dt, wait |-> wait + 1]

---------------------------------------------------------------------------
(* Saving schedule: times <<s1, s2, ...>> (sorted), ptr requests served.   *)
SaveDue(sched, ptr, time) == ptr < Len(sched) /\ time + TOL >= sched[ptr + 1]
=========================================================================
