---------------------------- MODULE Assembly ----------------------------
(* Assembling of element contributions into global vectors and matrices.   *)
(*                                                                         *)
(* A system S is a sequence of variables [nc, off, n, eq]: the number of   *)
(* components, the offset and number of rows, and the equation of each DOF *)
(* (negative: prescribed).  A term T: [tm, v, ss, coef, conn]: the formula *)
(* of contributions, test variable, distinct unknowns, coefficient and the *)
(* connectivity of nodes of all variables in the cells of its region.      *)
(* Cells, local rows and columns are counted from zero.                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

\* The contribution of a cell to the vector and to the matrix (real, imaginary).
F(im, tm, c, r) == IF im THEN ((tm + 2 * c + 5 * r) % 7) - 3
                   ELSE ((7 * tm + 5 * c + 3 * r + c * r) % 11) - 5
K(im, tm, s, c, r, k) == IF im THEN ((tm + s + 3 * c + r + 4 * k + c * r) % 5) - 2
                         ELSE ((3 * tm + 2 * s + 5 * c + 7 * r + 11 * k + r * k + c * k) % 13) - 6

NCells(T, v) == Len(T.conn[v])
NLoc(S, T, v, c) == S[v].nc * Len(T.conn[v][c + 1])
\* Local DOFs are ordered by components.
Dof(S, T, v, c, r) == LET nodes == T.conn[v][c + 1]
                      IN nodes[(r % Len(nodes)) + 1] * S[v].nc + (r \div Len(nodes))
\* The global row, or -1.
Row(S, T, v, c, r) == LET e == S[v].eq[Dof(S, T, v, c, r) + 1] IN IF e < 0 THEN -1 ELSE S[v].off + e

Sum(S) == FoldSet(LAMBDA x, a : x[1] + a, 0, S)
Locals(S, T, v) == UNION {{<<c, r>> : r \in 0..(NLoc(S, T, v, c) - 1)} : c \in 0..(NCells(T, v) - 1)}
\* The value in row i of the vector of the term.
TermVec(S, T, i, im) ==
  T.coef * Sum({<<F(im, T.tm, x[1], x[2]), x>> : x \in {y \in Locals(S, T, T.v) : Row(S, T, T.v, y[1], y[2]) = i}})
Vec(S, Ts, i, im) == Sum({<<TermVec(S, Ts[k], i, im), k>> : k \in DOMAIN Ts})
\* An item of the matrix.
TermItem(S, T, i, j, im) ==
  LET L == {y \in Locals(S, T, T.v) : Row(S, T, T.v, y[1], y[2]) = i}
      C(s, c) == {k \in 0..(NLoc(S, T, s, c) - 1) : Row(S, T, s, c, k) = j}
  IN T.coef * Sum({<<K(im, T.tm, T.ss[q], x[1], x[2], k), q, x, k>> : <<q, x, k>> \in
       UNION {UNION {{<<q, x, k>> : k \in C(T.ss[q], x[1])} : x \in L} : q \in DOMAIN T.ss}})
Item(S, Ts, i, j, im) == Sum({<<TermItem(S, Ts[k], i, j, im), k>> : k \in DOMAIN Ts})
\* The product of row i with weights W(column).
TermRow(S, T, i, im, W(_, _)) ==
  LET L == {y \in Locals(S, T, T.v) : Row(S, T, T.v, y[1], y[2]) = i}
      Cell(s, x) == Sum({<<LET j == Row(S, T, s, x[1], k) IN
                           IF j < 0 THEN 0 ELSE K(im, T.tm, s, x[1], x[2], k) * W(s, j), k>> : k \in 0..(NLoc(S, T, s, x[1]) - 1)})
  IN T.coef * Sum({<<Sum({<<Cell(T.ss[q], x), q>> : q \in DOMAIN T.ss}), x>> : x \in L})
RowSum(S, Ts, i, im, W(_, _)) == Sum({<<TermRow(S, Ts[k], i, im, W), k>> : k \in DOMAIN Ts})
\* Columns which can be nonzero in row i.
TermCols(S, T, i) == UNION {UNION {{Row(S, T, T.ss[q], y[1], m) : m \in 0..(NLoc(S, T, T.ss[q], y[1]) - 1)} : q \in DOMAIN T.ss} :
                            y \in {z \in Locals(S, T, T.v) : Row(S, T, T.v, z[1], z[2]) = i}}
Cols(S, Ts, i) == (UNION {TermCols(S, Ts[k], i) : k \in DOMAIN Ts}) \ {-1}
=========================================================================
