------------------------------ MODULE Newton ------------------------------
(* The Newton solver as a machine that consumes the outcomes of residual   *)
(* evaluations and linear solves: which evaluation comes next and what is  *)
(* reported at the end is determined by the outcomes so far.               *)
(*                                                                         *)
(* c: the configuration.  Ratios are pairs <<numerator, denominator>>;     *)
(* reduction factors are given by their denominators.  The states x are    *)
(* pairs of integers in units of 1/Unit.                                   *)
(* Outcomes of evaluations: the norm of the residual, Failed, NonFinite.   *)
EXTENDS Integers, Sequences
Unit == 4096
Failed == -1
NonFinite == -2
Raised == -9
Less(a, b, q) == a * q[2] < b * q[1]
\* The tolerances are met by the residual norm err, err0 at the beginning.
MetA(c, err) == err <= c.eps_a
MetR(c, err, err0) == err0 = 0 \/ err * c.eps_r[2] <= err0 * c.eps_r[1]
Met(c, it, err, err0) == IF it = 0 THEN MetA(c, err)
                         ELSE IF c.any THEN MetA(c, err) \/ MetR(c, err, err0) ELSE MetA(c, err) /\ MetR(c, err, err0)

\* s.x: the last accepted state, s.err its error; s.L: 1 / the step
\* reduction of the line search; s.tx, s.terr: the trial state.
Start(c, x0) == [ph |-> IF c.hook THEN "hook" ELSE "fun", it |-> 0, x |-> x0, tx |-> x0, L |-> 1, err |-> -1, terr |-> -1, err0 |-> -1,
                 D |-> <<0, 0>>, dn |-> 0, jac |-> 0, last_jac |-> 0, nlin |-> 0, lsn |-> 0, cond |-> -1, fun |-> 0]
Trial(c, s) == [j \in 1..2 |-> s.x[j] - ((s.D[j] * Unit) \div (s.L * c.step_red))]
End(s, cond) == [s EXCEPT !.ph = "end", !.cond = cond]
\* The trial state is accepted: test the convergence.
Accept(c, s) ==
  LET e0 == IF s.it = 0 THEN s.terr ELSE s.err0
      a == [s EXCEPT !.err0 = e0]
      cond == IF Met(c, s.it, s.terr, e0) THEN 0 ELSE IF s.it >= c.i_max THEN 1 ELSE -1
  IN IF cond >= 0 THEN End([a EXCEPT !.x = s.tx, !.err = s.terr], cond)
     ELSE [a EXCEPT !.ph = IF c.linear THEN "grad" ELSE IF c.usejac THEN "isnew" ELSE "grad"]
\* The trial state is not good enough: a smaller step, up to the limit.
Reduce(c, s, red) == IF s.L > c.ls_min THEN Accept(c, s) ELSE [s EXCEPT !.L = s.L * red, !.ph = "fun"]
Fun(c, s, out) ==
  LET t == [s EXCEPT !.tx = Trial(c, s), !.terr = out, !.fun = s.fun + 1] IN
  IF out = NonFinite THEN End(t, Raised)
  ELSE IF out = Failed THEN
       IF s.it = 0 \/ s.L > c.ls_min THEN End(t, Raised)
       ELSE IF c.give_up THEN End([t EXCEPT !.tx = s.x], 2)
       ELSE [t EXCEPT !.L = s.L * c.ls_red_warp]
  ELSE IF s.it = 0 THEN Accept(c, t)
  ELSE IF c.mode = "error" THEN [t EXCEPT !.ph = "resolve"]
  ELSE IF Less(out, s.err, c.ls_on) THEN Accept(c, t) ELSE Reduce(c, t, c.ls_red)
Resolve(c, s, dn) == IF Less(dn, s.dn, c.ls_on) THEN Accept(c, s) ELSE Reduce(c, s, c.ls_red)
IsNew(c, s, ret) == [s EXCEPT !.ph = IF ret \/ s.jac = 0 THEN "grad" ELSE "lin"]
Grad(c, s) == [s EXCEPT !.ph = "lin", !.jac = s.jac + 1, !.last_jac = IF c.linear THEN 0 ELSE s.it]
Lin(c, s, D, dn, n) == [s EXCEPT !.ph = IF c.hook THEN "hook" ELSE "fun", !.it = s.it + 1, !.x = s.tx, !.err = s.terr, !.L = 1,
                                 !.D = D, !.dn = dn, !.nlin = s.nlin + 1, !.lsn = s.lsn + n]
Hook(s) == [s EXCEPT !.ph = "fun"]
===========================================================================
