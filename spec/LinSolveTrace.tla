--------------------------- MODULE LinSolveTrace ---------------------------
(* The recorded calls of a solver against LinSolve.                        *)
EXTENDS LinSolve, TraceLib
VARIABLES t, i, objs, held
S(k) == Trace[k].scn
Op(k, j) == S(k).ops[j]
Direct(k) == S(k).kind \in {"auto", "superlu", "umfpack", "cholesky", "mumps", "mumpspy"}
Given(r, f) == IF f \in DOMAIN r THEN <<r[f]>> ELSE <<>>
\* The effective settings of a call (in the integer units of the scenario).
Set(k, o, f) == Opt(Given(o.iargs, f), Given(o.icall, f), S(k).iconf[f])
Reuse(k, o) == IF Direct(k) THEN Set(k, o, "use_presolve") ELSE S(k).kind = "amg"
Trust(k, o) == IF Direct(k) THEN Set(k, o, "use_presolve") /\ ~Set(k, o, "use_mtx_digest")
               ELSE IF S(k).kind = "amg" THEN Set(k, o, "force_reuse") ELSE FALSE
Before(k, o) == IF Reuse(k, o) THEN held ELSE {}
\* eps: in 1e-3.
Tol(k, o, e) == MaxI(Set(k, o, "eps_a"), (e.bnorm * Set(k, o, "eps_r")) \div 1000)
Tight(k, o) == Set(k, o, "eps_a") = 0 /\ Set(k, o, "eps_r") = 0 /\ Set(k, o, "i_max") >= 30
Solved(k, e, c, b) == e.exact /\ Solves(S(k).pool[c], e.x, b)
SolveClauses(k, e, o) ==
  LET c == objs[o.obj]
      ok == IF Direct(k) THEN TRUE ELSE Tight(k, o)
      cg == S(k).kind = "it" /\ S(k).method = "cg"
      n == Len(e.res)
  IN IF e.raised # "" THEN << <<"solves", Answers(Before(k, o), c, Trust(k, o)) # {c}>> >>
     ELSE << <<"answers_given_matrix", (ok /\ Answers(Before(k, o), c, Trust(k, o)) = {c}) => Solved(k, e, c, o.b)>>,
             <<"inputs_kept", e.kept>>,
             <<"status", IF Direct(k) THEN e.n_iter = -1 ELSE e.n_iter >= 0>>,
             <<"max_iterations", cg \/ (S(k).kind = "amgk" /\ S(k).method = "cg") \/ S(k).kind = "amg"
                                 => e.n_iter <= Set(k, o, "i_max")>>,
             <<"callback_of_call", ~Direct(k) => IF o.arg_cb THEN e.arg = e.n_iter /\ e.own = 0 ELSE e.own = e.n_iter /\ e.arg = 0>>,
             <<"preconditioner_of_given_matrix", S(k).kind \in {"it", "amgk"} => e.pc = <<TRUE>> >>,
             <<"tolerance", cg => /\ n = e.n_iter
                                  /\ \A q \in 1..(n - 1) : e.res[q] >= Tol(k, o, e) - 2
                                  /\ (n < Set(k, o, "i_max")) => (IF n = 0 THEN e.res0 ELSE e.res[n]) <= Tol(k, o, e) + 2
                                  /\ n > 0 => (e.res0 >= Tol(k, o, e) - 2 /\ e.last = <<1>>)>>,
             <<"tolerance_reached", (S(k).kind = "amg" /\ e.n_iter < Set(k, o, "i_max") /\ ~Trust(k, o))
                                    => e.resx <= ((e.bnorm * Set(k, o, "eps_r")) \div 1000) + 2>> >>
Clauses(k, j) ==
  LET e == Ev(k, j) IN
  IF e.op = "end" THEN << <<"configuration_kept", e.conf>> >>
  ELSE LET o == Op(k, j) IN
  CASE e.op = "solve" -> SolveClauses(k, e, o)
    [] e.op = "presolve" -> << <<"presolves", e.raised = "">> >>
    [] OTHER -> << >>
Objs(k, j) ==
  LET e == Ev(k, j) IN
  IF e.op \in {"change", "replace"} THEN [objs EXCEPT ![Op(k, j).obj] = Op(k, j).c] ELSE objs
Held(k, j) ==
  LET e == Ev(k, j) IN
  IF e.op = "clear" THEN (IF Direct(k) THEN {} ELSE held)
  ELSE IF e.op = "solve" THEN Kept(Before(k, Op(k, j)), objs[Op(k, j).obj], Trust(k, Op(k, j)))
  ELSE IF e.op = "presolve" /\ Direct(k) THEN Kept(held, objs[Op(k, j).obj], Op(k, j).trust)
  ELSE held
TInit == t \in 1..NT /\ i = 1 /\ objs = S(t).start /\ held = {}
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, i)))
         /\ objs' = Objs(t, i) /\ held' = Held(t, i) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i, objs, held>>
===========================================================================
