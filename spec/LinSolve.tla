----------------------------- MODULE LinSolve -----------------------------
(* One linear solver instance used again and again: with various matrix    *)
(* objects, whose contents change in place, and with options given for     *)
(* single calls.                                                           *)
(*                                                                         *)
(* objs[o] is the content of the matrix object o (an index of a matrix);   *)
(* held is the set of contents that a factorization (or a multigrid setup) *)
(* that the solver was told to keep may be of.                             *)
EXTENDS Integers, Sequences, FiniteSets

\* The answer of a call is a solution of the matrix given in this call.
\* Reuse without a check of the matrix happens only on an explicit request
\* (trust); then the answer may be also for the kept matrix.
Answers(held, c, trust) == IF trust THEN {c} \cup held ELSE {c}
\* What may be kept after the call.
Kept(held, c, trust) == IF trust THEN {c} \cup held ELSE {c}

\* An option given in the call: the argument, then the call configuration,
\* then the configuration of the solver (<<>> is not given).
Opt(arg, call, own) == IF arg # <<>> THEN arg[1] ELSE IF call # <<>> THEN call[1] ELSE own

\* Integer complex linear systems: M is a sequence of rows of <<re, im>>.
CMul(p, q) == <<(p[1] * q[1]) - (p[2] * q[2]), (p[1] * q[2]) + (p[2] * q[1])>>
RECURSIVE CDot(_, _, _)
CDot(r, x, j) == IF j = 0 THEN <<0, 0>> ELSE LET a == CDot(r, x, j - 1) b == CMul(r[j], x[j]) IN <<a[1] + b[1], a[2] + b[2]>>
Apply(M, x) == [k \in DOMAIN M |-> CDot(M[k], x, Len(x))]
Solves(M, x, b) == Apply(M, x) = b
===========================================================================
