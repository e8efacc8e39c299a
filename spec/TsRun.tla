------------------------------- MODULE TsRun -------------------------------
(* One run of a time-dependent problem: order of preparation, solution,    *)
(* user hooks, saving and of the history advance, with the states in them. *)
(* Times are in ticks; the tested problem has the state                    *)
(*   u(n) = u(n-1) + dt (f + g), w(n) = u(n-1), z(n) = Unit g              *)
(* with f, g piecewise constant in time (intervals of 16 ticks).           *)
EXTENDS Integers, Sequences, TLC
Unit == 64
None == -12345
Junk == 1000
Trans(c) == c.ts # "stationary" /\ ~c.quasi
Load(c, t) == c.f[((t \div 16) % Len(c.f)) + 1]
Bound(c, t) == c.g[((t \div 16) % Len(c.g)) + 1]
Dt0(c) == IF c.n_step > 1 THEN (c.t1 - c.t0) \div (c.n_step - 1) ELSE c.t1 - c.t0
\* --- the initial and the restarted state
Start(c, u) == [step |-> 0, t |-> IF c.ts = "stationary" THEN 0 ELSE c.t0, tp |-> None, dt |-> Dt0(c), red |-> 16, wait |-> 0,
                u |-> u, w |-> 0, h1 |-> None, h2 |-> None, ptr |-> 0]
Shifted(s) == IF s.h1 = None THEN [s EXCEPT !.h1 = s.u, !.h2 = s.u]
              ELSE [s EXCEPT !.h1 = s.u, !.h2 = s.h1]
IsLast(c, s) == IF c.ts = "adaptive" THEN s.t >= c.t1
              ELSE c.ts = "stationary" \/ s.step = c.n_step - 1
NextStep(c, s) == [Shifted(s) EXCEPT !.step = @ + 1, !.tp = s.t,
   !.t = IF c.ts = "adaptive" THEN s.t + s.dt ELSE c.t0 + (s.step + 1) * Dt0(c)]
\* --- solution of the current step
Prev(s) == IF s.step = 0 THEN s.u ELSE s.h1
Solved(c, s) == LET x == Load(c, s.t) + Bound(c, s.t) IN
  IF Trans(c) THEN [s EXCEPT !.u = s.h1 + s.dt * x, !.w = s.h1]
  ELSE [s EXCEPT !.u = Unit * x, !.w = IF s.step = 0 THEN Unit * x ELSE s.h1]
Junked(s) == [s EXCEPT !.u = @ + Junk, !.w = @ + Junk]
\* What follows a solution with the given status: <<accepted, state>>.
Adapt(c, s0, y) == \* s0: state before, y: script item
  LET s1 == Solved(c, s0) cond == y[1] iter == y[2] IN
  IF c.ts # "adaptive" \/ (c.quasi /\ s0.step = 0)
  THEN <<TRUE, IF cond = 0 THEN s1 ELSE Junked(s1)>>
  ELSE IF cond = 0 THEN
    <<TRUE, IF iter > c.easy THEN [s1 EXCEPT !.wait = 0]
            ELSE IF s1.wait + 1 > c.wait
            THEN LET r == IF s1.red < 16 THEN 2 * s1.red ELSE s1.red IN
                 [s1 EXCEPT !.wait = 0, !.red = r, !.dt = (Dt0(c) * r) \div 16]
            ELSE [s1 EXCEPT !.wait = @ + 1]>>
  ELSE IF s0.red < 2 * c.redmax THEN <<TRUE, [Junked(s1) EXCEPT !.wait = 0]>>
  ELSE LET r == s0.red \div 2 IN
    <<FALSE, [s0 EXCEPT !.wait = 0, !.red = r, !.dt = (Dt0(c) * r) \div 16,
                        !.t = s0.tp + (Dt0(c) * r) \div 16]>>
\* --- saving: <<saved, pointer>>
Due(c, ptr, t) ==
  CASE c.save.kind = "all" -> TRUE
    [] c.save.kind = "fun" -> FALSE
    [] c.save.kind = "list" -> ptr < Len(c.save.times) /\ t >= c.save.times[ptr + 1]
    [] OTHER -> LET n == c.save.n a == IF c.ts = "stationary" THEN 0 ELSE c.t0
                    b == IF c.ts = "stationary" THEN Unit ELSE c.t1 IN
                ptr < n /\ (IF n = 1 THEN t >= a ELSE (t - a) * (n - 1) >= (b - a) * ptr)
Saves(c, s) == IF c.save.kind = "fun" THEN \E k \in DOMAIN c.save.times : c.save.times[k] = s.step
               ELSE Due(c, s.ptr, s.t)
Hist(c, s) == IF c.ts = "stationary" THEN <<>> ELSE <<IF s.step = 0 THEN s.u ELSE s.h1, s.h2>>
Rec(c, s, kind) == [e |-> kind, step |-> s.step, t |-> s.t, u |-> s.u, w |-> s.w,
                    z |-> Unit * Bound(c, s.t), hist |-> Hist(c, s)]
NlsRec(c, s, y) == [e |-> "nls", step |-> s.step, t |-> s.t, u |-> s.u, w |-> s.w, z |-> s.dt,
                    hist |-> Hist(c, s), cond |-> y[1], iter |-> y[2]]
\* The end of a step: hook, saving.
Ended(c, s) == IF c.save.kind \in {"list", "int"} /\ Saves(c, s) THEN [s EXCEPT !.ptr = @ + 1] ELSE s
EndRecs(c, s, saving) == <<Rec(c, s, "hook")>> \o
                         (IF saving /\ Saves(c, s) THEN <<Rec(c, s, "save")>> ELSE <<>>)
\* --- the whole run: a sequence of records, the states after steps
RECURSIVE Go(_, _, _, _, _)
Go(c, s, script, saving, acc) ==
  LET y == IF script = <<>> THEN <<0, 1>> ELSE Head(script)
      rest == IF script = <<>> THEN <<>> ELSE Tail(script)
      skip == s.step = 0 /\ Trans(c)          \* nothing to solve
      a == IF skip THEN <<TRUE, s>> ELSE Adapt(c, s, y)
      recs == IF skip THEN <<>> ELSE <<NlsRec(c, s, y)>>
      s1 == a[2] s2 == IF saving THEN Ended(c, s1) ELSE s1
  IN IF ~a[1] THEN Go(c, s1, rest, saving, [acc EXCEPT !.log = @ \o recs])
     ELSE LET acc1 == [log |-> acc.log \o recs \o EndRecs(c, s1, saving),
                       ends |-> Append(acc.ends, s1)] IN
       IF IsLast(c, s1) THEN acc1
       ELSE Go(c, NextStep(c, s2), IF skip THEN script ELSE rest, saving, acc1)
\* The state a restart file of step s continues from.
RECURSIVE SkipSaves(_, _, _)
SkipSaves(c, times, ptr) == IF times = <<>> THEN ptr
  ELSE SkipSaves(c, Tail(times), IF Due(c, ptr, Head(times)) THEN ptr + 1 ELSE ptr)
\* times: all the times up to the step; the waiting counter is not saved.
Resume(c, s, times) ==
  LET p == IF c.save.kind \in {"list", "int"} THEN SkipSaves(c, times, 0) ELSE 0
      s1 == [s EXCEPT !.wait = 0, !.ptr = p] IN
  IF c.ts = "stationary" \/ (IsLast(c, s) /\ s.step = 0) THEN s1
  ELSE IF IsLast(c, s) THEN \* repeats the last step
    LET d == s.t - s.tp IN [s1 EXCEPT !.dt = d, !.red = IF c.ts = "adaptive" THEN (16 * d) \div Dt0(c) ELSE @]
  ELSE NextStep(c, s1)
============================================================================
