------------------------------ MODULE Locate ------------------------------
(* Location of points in meshes of simplices and of parallelogram cells.   *)
(*                                                                         *)
(* A mesh M: [dim, simplex, coors, cells] with integer coordinates and     *)
(* vertices of cells counted from one; points are p / den.  The reference  *)
(* coordinates of a point in cell c are Num(M, c, p, k) / (den * Det(M, c)).*)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Max0(x) == IF x > 0 THEN x ELSE 0
Orig(M, c) == M.coors[M.cells[c][1]]
\* The vertices at the ends of the reference axes.
AxisV(M, k) == IF M.simplex \/ M.dim = 1 THEN k + 1 ELSE <<2, 4, 5>>[k]
Vec(M, c, k) == LET a == M.coors[M.cells[c][AxisV(M, k)]] IN [d \in 1..M.dim |-> a[d] - Orig(M, c)[d]]
DetOf(A) == CASE Len(A) = 1 -> A[1][1]
              [] Len(A) = 2 -> A[1][1] * A[2][2] - A[1][2] * A[2][1]
              [] OTHER -> A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1])
                          + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
SDet(M, c) == DetOf([k \in 1..M.dim |-> Vec(M, c, k)])
Det(M, c) == Abs(SDet(M, c))
Num(M, c, p, den, k) ==
  LET q == [d \in 1..M.dim |-> p[d] - den * Orig(M, c)[d]]
      x == DetOf([m \in 1..M.dim |-> IF m = k THEN q ELSE Vec(M, c, m)])
  IN IF SDet(M, c) < 0 THEN -x ELSE x
SumF(f) == FoldSet(LAMBDA k, a : f[k] + a, 0, DOMAIN f)
\* The square of the distance in the reference cell, times (den * Det)^2.
Viol(M, c, p, den) ==
  LET n == [k \in 1..M.dim |-> Num(M, c, p, den, k)]
      h == den * Det(M, c)
      Sq(x) == Max0(x) * Max0(x)
  IN SumF([k \in 1..M.dim |-> Sq(-n[k])]) + (IF M.simplex THEN Sq(SumF(n) - h) ELSE SumF([k \in 1..M.dim |-> Sq(n[k] - h)]))
In(M, c, p, den) == Viol(M, c, p, den) = 0
NotFarther(M, c1, c2, p, den) ==
  Viol(M, c1, p, den) * Det(M, c2) * Det(M, c2) <= Viol(M, c2, p, den) * Det(M, c1) * Det(M, c1)
\* -1, 0, 1: closer, in or farther than the limit ln / ld.
Against(M, c, p, den, ln, ld) ==
  LET a == Viol(M, c, p, den) * ld * ld
      h == den * Det(M, c) * ln
      b == h * h
  IN IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
\* Balls around centroids.
NV(M, c) == Len(M.cells[c])
Cent(M, c, d) == SumF([k \in 1..NV(M, c) |-> M.coors[M.cells[c][k]][d]])
Rad(M, c) == Max({Abs(NV(M, c) * M.coors[M.cells[c][k]][d] - Cent(M, c, d)) : k \in 1..NV(M, c), d \in 1..M.dim})
InBall(M, c, p, den) == \A d \in 1..M.dim : Abs(NV(M, c) * p[d] - den * Cent(M, c, d)) <= den * Rad(M, c)
InsideBall(M, c, p, den) == \A d \in 1..M.dim : Abs(NV(M, c) * p[d] - den * Cent(M, c, d)) < den * Rad(M, c)
Dist2(M, v, p, den) == SumF([d \in 1..M.dim |-> (p[d] - den * M.coors[v][d]) * (p[d] - den * M.coors[v][d])])
UsedV(M) == UNION {{M.cells[c][k] : k \in DOMAIN M.cells[c]} : c \in DOMAIN M.cells}
Closest(M, p, den) == LET m == Min({Dist2(M, v, p, den) : v \in UsedV(M)}) IN {v \in UsedV(M) : Dist2(M, v, p, den) = m}
Incident(M, v) == {c \in DOMAIN M.cells : \E k \in DOMAIN M.cells[c] : M.cells[c][k] = v}

\* A polynomial: terms [c, e], times den^2.
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Mono(e, p) == IF Len(p) = 1 THEN Pow(p[1], e[1]) ELSE IF Len(p) = 2 THEN Pow(p[1], e[1]) * Pow(p[2], e[2]) ELSE Pow(p[1], e[1]) * Pow(p[2], e[2]) * Pow(p[3], e[3])
Poly(P, p, den) == SumF([k \in DOMAIN P |-> P[k].c * Mono(P[k].e, p) * Pow(den, 2 - SumF(P[k].e))])
\* Its derivative, times den^2.
DPoly(P, p, den, d) ==
  SumF([k \in DOMAIN P |-> IF P[k].e[d] = 0 THEN 0
        ELSE P[k].c * P[k].e[d] * Mono([P[k].e EXCEPT ![d] = P[k].e[d] - 1], p) * Pow(den, 3 - SumF(P[k].e))])
=========================================================================
