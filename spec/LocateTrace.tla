--------------------------- MODULE LocateTrace ---------------------------
(* Recorded evaluations in points and probes compared with Locate.tla.     *)
EXTENDS Locate, TraceLib
VARIABLES t, i
C(tt) == Trace[tt].c
\* The mesh of the field.
M(tt, f) == LET r == C(tt).fields[f].region IN C(tt).geo[r]
Cells(m) == DOMAIN m.cells
Den == 2
\* The clauses for point p of event e.
Located(m, e, j) ==
  LET p == e.pts[j]  c == e.cells[j]  s == e.status[j]
      ok == c \in Cells(m)
      cont == \E x \in Cells(m) : In(m, x, p, Den)
      IB == {x \in Cells(m) : InBall(m, x, p, Den)}
      SB == {x \in Cells(m) : InsideBall(m, x, p, Den)}
      CV == Closest(m, p, Den)
      Near == UNION {Incident(m, v) : v \in CV}
      a == Against(m, c, p, Den, e.ln, e.ld)
      best(S) == \A x \in S : NotFarther(m, c, x, p, Den)
  IN IF ~ok THEN FALSE
     ELSE IF cont THEN s = 0 /\ In(m, c, p, Den)
     ELSE IF e.strategy = "convex" THEN
       IF e.ln = 0 THEN s = 3
       ELSE /\ s \in {1, 2}
            /\ (s = 2 => a >= 0)
            /\ (s = 1 => \E x \in Cells(m) : Against(m, x, p, Den, e.ln, e.ld) <= 0)
     ELSE IF e.ln = 0 THEN s = (IF SB # {} THEN 3 ELSE IF IB = {} THEN 5 ELSE s) /\ s \in {3, 5}
     ELSE /\ IF SB # {} THEN c \in IB /\ best(SB)
             ELSE IF IB # {} THEN c \in IB \cup Near
             ELSE c \in Near /\ (Cardinality(CV) = 1 => best(Near))
          /\ s \in {1, 2} /\ (a < 0 => s = 1) /\ (a > 0 => s = 2)
XiOk(m, e, j) ==
  LET p == e.pts[j]  c == e.cells[j]
      h == Den * Det(m, c)
  IN e.status[j] > 1 \/ c \notin Cells(m) \/
       \A k \in 1..m.dim : Abs(e.xi[j][k] * h - Num(m, c, p, Den, k) * 10000) <= h
\* Values times den^2.
Want(tt, e, j, c) ==
  LET F == C(tt).fields[e.f]  P == F.poly  p == e.pts[j]  D == C(tt).geo[F.region].dim
      G(n, d) == DPoly(P[n], p, Den, d)
  IN CASE F.order = 0 -> <<(3 * (c - 1) + 1) * 4>>
       [] F.order > 0 /\ e.mode = "val" -> [n \in 1..F.nc |-> Poly(P[n], p, Den)]
       [] F.order > 0 /\ e.mode = "grad" -> [n \in 1..(F.nc * D) |-> G(((n - 1) \div D) + 1, ((n - 1) % D) + 1)]
       [] F.order > 0 /\ e.mode = "div" -> <<SumF([d \in 1..D |-> G(d, d)])>>
       [] OTHER -> IF D = 2 THEN <<G(1, 1), G(2, 2), G(1, 2) + G(2, 1)>>
                   ELSE <<G(1, 1), G(2, 2), G(3, 3), G(1, 2) + G(2, 1), G(1, 3) + G(3, 1), G(2, 3) + G(3, 2)>>
ValOk(tt, e, j) ==
  IF e.status[j] > 1 THEN \A n \in DOMAIN e.vals[j] : e.vals[j][n] = 0
  ELSE e.vals[j] = Want(tt, e, j, e.cells[j])
\* The cell is not known.
PlainOk(tt, e, j) ==
  LET m == M(tt, e.f)  p == e.pts[j]
      S == {x \in Cells(m) : In(m, x, p, Den)}
  IN IF S # {} THEN ~e.nan[j] /\ \E x \in S : e.vals[j] = Want(tt, e, j, x)
     ELSE e.nan[j] \/ (e.ln > 0 /\ \E x \in Cells(m) : e.vals[j] = Want(tt, e, j, x) /\ Against(m, x, p, Den, e.ln, e.ld) <= 0)
Isq(L, x) == L * L = x
ProbeClauses(tt, e) ==
  LET P == C(tt).probes[e.p]
      D == C(tt).geo.Omega.dim
      Tol == 50
  IN <<<<"sizes of probe results", e.n = e.npts /\ e.n = e.nv>>,
       <<"number of points", IF e.k \in {"points", "ray"} THEN e.n = P.total ELSE IF e.fixed THEN e.n = e.want ELSE e.n >= e.want>>,
       <<"order of parameters", e.inc>>, <<"spacing", e.fine>>,
       <<"probe values", e.same>>,
       <<"points of the probe", e.n # e.npts \/
         CASE e.k = "line" -> /\ e.pars[1] = 0 /\ Abs(e.pars[e.n] - P.len * 10000) <= 1
                              /\ \A j \in 1..e.n : \A d \in 1..D : Abs(e.pts[j][d] * P.len - (P.p0[d] * P.len * 10000 + (P.p1[d] - P.p0[d]) * e.pars[j])) <= Tol
                              /\ (e.fixed => \A j \in 1..e.n : Abs(e.pars[j] * (e.n - 1) - P.len * 10000 * (j - 1)) <= Tol)
           [] e.k = "ray" -> \A j \in 1..e.n : \A d \in 1..D : Abs(e.pts[j][d] * P.len - (P.p0[d] * P.len * 10000 + P.dir[d] * e.pars[j])) <= Tol
           [] e.k = "circle" -> \A j \in 1..e.n :
                LET x == [d \in 1..D |-> (e.pts[j][d] \div 10) - P.c[d] * 1000]
                    r2 == SumF([d \in 1..D |-> x[d] * x[d]])
                IN /\ Abs(r2 - P.r * P.r * 1000000) <= 12000 * P.r
                   /\ D = 3 => Abs(SumF([d \in 1..D |-> x[d] * P.nrm[d]])) <= 30 * SumF([d \in 1..D |-> Abs(P.nrm[d])])
           [] OTHER -> TRUE>>>>
Clauses(tt, k) ==
  LET e == Ev(tt, k)  m == M(tt, e.f)
  IN CASE e.op = "at" -> <<<<"location", \A j \in DOMAIN e.pts : Located(m, e, j)>>,
                           <<"reference coordinates", \A j \in DOMAIN e.pts : XiOk(m, e, j)>>,
                           <<"values", \A j \in DOMAIN e.pts : ValOk(tt, e, j)>>,
                           <<"integers", e.noise < 1000>>, <<"imaginary part", e.imag>>>>
       [] e.op = "plain" -> <<<<"values or nan", \A j \in DOMAIN e.pts : PlainOk(tt, e, j)>>, <<"integers", e.noise < 1000>>, <<"imaginary part", e.imag>>>>
       [] OTHER -> <<>>
TInit == t \in 1..NT /\ i = 1
TNext == /\ i <= NEv(t)
         /\ Report(t, i, Bad(IF Ev(t, i).op = "probe" THEN ProbeClauses(t, Ev(t, i)) ELSE Clauses(t, i)))
         /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i>>
=========================================================================
