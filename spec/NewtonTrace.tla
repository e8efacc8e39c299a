---------------------------- MODULE NewtonTrace ----------------------------
(* The recorded evaluations and reports of nonlinear solvers against       *)
(* Newton.                                                                 *)
EXTENDS Newton, TraceLib
VARIABLES t, i, s, r
S(k) == Trace[k].scn
C(k) == S(k).c
Sc(k, v) == IF S(k).scale THEN [j \in DOMAIN v |-> 2 * v[j]] ELSE v
MtxOf(k, n) == IF S(k).scale THEN 2 * n ELSE n
\* The tolerances of the linear solver, in 1/1024.
EpsA(k, err) == LET a == S(k).tol[1] IN
                IF S(k).prec >= 0 /\ a >= 0 THEN MaxI(err * S(k).prec, a) ELSE IF a >= 0 THEN a ELSE 1024
EpsR(k) == LET a == S(k).tol[1]
               b == S(k).tol[2] IN
           IF S(k).prec >= 0 /\ a < 0 /\ b >= 0 THEN MaxI(S(k).prec, b) ELSE IF b >= 0 THEN b ELSE 1024
Near(a, b) == a - b <= 1 + (b \div 1000) /\ b - a <= 1 + (b \div 1000)
Clauses(k, j) ==
  LET e == Ev(k, j)
      c == C(k)
  IN CASE e.op = "start" -> << <<"previous_call_ended", s.ph \in {"end", "lost"}>> >>
     [] e.op = "hook" -> << <<"hook_before_iteration", s.ph = "hook">>,
                            <<"hook_arguments", s.ph = "hook" => e.x = s.x /\ e.it = s.it /\ e.err = s.err /\ e.err0 = s.err0 /\ e.ctx>> >>
     [] e.op = "fun" -> << <<"evaluation_expected", s.ph = "fun">>, <<"trial_state", s.ph = "fun" => e.x = Trial(c, s)>> >>
     [] e.op = "resolve" -> << <<"error_estimate_expected", s.ph = "resolve">>,
                               <<"error_estimate_of_trial", s.ph = "resolve" => e.rhs = Sc(k, r) /\ e.mtx = MtxOf(k, s.jac)>> >>
     [] e.op = "isnew" -> << <<"jacobian_query_expected", s.ph = "isnew">>,
                             <<"jacobian_query_arguments", s.ph = "isnew" => /\ e.it = s.it /\ e.it_jac = s.last_jac /\ e.r = r /\ e.ctx
                                                                            /\ e.x = s.tx /\ e.x0 = s.x>> >>
     [] e.op = "grad" -> << <<"matrix_expected", s.ph = "grad">>,
                            <<"matrix_at_accepted_state", s.ph = "grad" => IF c.linear THEN e.lin ELSE (~e.lin /\ e.x = s.tx)>> >>
     [] e.op = "lin" -> << <<"linear_solve_expected", s.ph = "lin">>,
                           <<"linear_system", s.ph = "lin" => e.rhs = Sc(k, r) /\ e.mtx = MtxOf(k, s.jac) /\ e.x0 = s.tx>>,
                           <<"linear_tolerances", s.ph = "lin" => e.eps_a = EpsA(k, s.terr) /\ e.eps_r = EpsR(k)>> >>
     [] e.op = "end" -> IF e.raised # "" THEN << <<"raised", s.ph = "end" /\ s.cond = Raised>>, <<"initial_guess_kept", e.kept>> >>
          ELSE << <<"stops", s.ph = "end" /\ s.cond # Raised>>, <<"initial_guess_kept", e.kept>>,
                  <<"condition", s.ph = "end" => e.cond = s.cond>>, <<"state_returned", s.ph = "end" => e.x = s.x>>,
                  <<"iterations_reported", s.ph = "end" => e.n_iter = s.it>>,
                  <<"errors_reported", s.ph = "end" => e.err = s.err /\ e.err0 = s.err0>>,
                  <<"solver_iterations_reported", s.ph = "end" => e.lsn = MaxI(s.lsn, -1)>>, <<"times_reported", e.time>> >>
     [] e.op = "linear" ->
          LET n == IF e.res0 = 0 THEN 0 ELSE 1 IN
          << <<"one_linear_solve", e.n_iter = n /\ e.solves = (IF S(k).mode = "error" THEN 2 * n ELSE n) /\ e.grads = n>>,
             <<"condition", e.cond = 0>>, <<"solution", e.x = S(k).x /\ e.res = 0>>, <<"errors_reported", e.err = 0 /\ Near(e.err0, e.res0)>> >>
     [] e.op = "root" ->
          << <<"raised", ~e.raised>>, <<"state_returned", e.raised \/ e.same>>, <<"condition", (e.has /\ ~e.raised) => (e.cond = 0) = e.success>>,
             <<"errors_reported", (e.has /\ ~e.raised) => Near(e.err, e.res)>>, <<"iterations_reported", (e.has /\ ~e.raised) => e.n_iter = e.nit>> >>
     [] e.op = "root_refused" -> << <<"raised", e.raised>> >>
     [] e.op = "semi" ->
          IF e.raised # "" THEN << <<"raised", S(k).fail # <<>> >>, <<"initial_guess_kept", e.kept>> >>
          ELSE << <<"initial_guess_kept", e.kept>>, <<"condition", e.cond \in {0, 1}>>,
                  <<"state_returned", e.found>>, <<"errors_reported", e.finite => Near(e.err, e.res) /\ Near(e.err0, e.res0)>>,
                  <<"tolerances_met", (e.cond = 0) => e.res <= 1001 /\ (e.n_iter = 0 \/ e.res0 = 0 \/ e.res0 > 2000000 \/ e.res <= 1 + ((e.res0 * S(k).eps_r) \div 1000))>>,
                  <<"limit", e.n_iter <= S(k).i_max /\ (e.cond = 1 => e.n_iter = S(k).i_max)>>,
                  <<"solves_counted", e.solves <= e.n_iter>>,
                  <<"one_linear_solve", S(k).easy => e.cond = 0 /\ e.n_iter <= 1>> >>
Next1(k, j) ==
  LET e == Ev(k, j)
      c == C(k)
  IN CASE e.op = "start" -> Start(c, [q \in 1..2 |-> Unit * S(k).x0[e.k][q]])
     [] e.op = "hook" -> Hook(s)
     [] e.op = "fun" -> Fun(c, s, e.out)
     [] e.op = "resolve" -> [Resolve(c, s, e.dn) EXCEPT !.lsn = s.lsn]
     [] e.op = "isnew" -> IsNew(c, s, e.ret)
     [] e.op = "grad" -> Grad(c, s)
     [] e.op = "lin" -> Lin(c, s, e.D, e.dn, e.n)
     [] OTHER -> s
Good == Bad(Clauses(t, i)) = {}
TInit == t \in 1..NT /\ i = 1 /\ s = [ph |-> "end"] /\ r = <<0, 0>>
\* Nothing more can be told about a call after a wrong event.
TNext == /\ i <= NEv(t) /\ i' = i + 1 /\ UNCHANGED t
         /\ IF s.ph = "lost" /\ Ev(t, i).op # "start" THEN UNCHANGED <<s, r>>
            ELSE /\ Report(t, i, Bad(Clauses(t, i)))
                 /\ s' = (IF Good THEN Next1(t, i) ELSE [s EXCEPT !.ph = "lost"])
                 /\ r' = (IF Ev(t, i).op = "fun" /\ Ev(t, i).out >= 0 THEN Ev(t, i).r ELSE r)
TSpec == TInit /\ [][TNext]_<<t, i, s, r>>
===========================================================================
