----------------------------- MODULE LcbcTrace -----------------------------
(* Conformance of LCBC operators: the recorded full states (scaled by      *)
(* 1000) of random reduced vectors, and the structure of the operator.    *)
EXTENDS Lcbc, TraceLib
VARIABLES t, i
vars == <<t, i>>
Sc == 1000
Cf(k) == Trace[k].c
Active(o, st) == o.times = <<>> \/ \E j \in DOMAIN o.times : o.times[j][1] <= st /\ st < o.times[j][2]
Ops(c, st) == SelectSeq(c.ops, LAMBDA o : Active(o, st))
Ebc(c) == {c.ebc[j][1] : j \in DOMAIN c.ebc}
NDofs(n) == UNION {Rng(n[j][2]) : j \in DOMAIN n}
IsTie(o) == o.kind \in {"shifted_periodic", "match_dofs"}
LivePairs(c, o) == SelectSeq(o.pairs, LAMBDA p : p[1] \notin Ebc(c) /\ p[2] \notin Ebc(c))
Masters(c, o) == CASE IsTie(o) -> {LivePairs(c, o)[j][1] : j \in DOMAIN LivePairs(c, o)}
  [] o.kind = "multi_node_combination" -> {o.comb[j][1] : j \in DOMAIN o.comb}
  [] o.kind = "average_force" -> NDofs(o.ref)
  [] o.kind = "rigid_twist" -> NDofs(o.n) \cup NDofs(o.n2)
  [] OTHER -> NDofs(o.n)
Slaves(c, o) == CASE o.kind = "rigid2" -> NDofs(o.ref)
  [] o.kind = "average_force" -> NDofs(o.n)
  [] o.kind = "multi_node_combination" -> UNION {{o.comb[j][2][k][1] : k \in DOMAIN o.comb[j][2]} : j \in DOMAIN o.comb}
  [] OTHER -> {}
New(o) == NewDofs(o.kind, Len(o.n), o.dim, Len(o.comps), IF Has(o, "A") THEN Len(o.A) ELSE 0)
\* the regions of all the conditions of a variable must be disjoint
Sides(c) == UNION {{<<j, 1, c.ops[j].v, Rng(c.ops[j].verts)>>} \cup
                   (IF c.ops[j].sv = "" THEN {} ELSE {<<j, 2, c.ops[j].sv, Rng(c.ops[j].sverts)>>}) : j \in DOMAIN c.ops}
Overlap(c) == \E a, b \in Sides(c) : a # b /\ a[3] = b[3] /\ a[4] \cap b[4] # {}
BadOp(c, o) == \/ ~IsTie(o) /\ (Masters(c, o) \cup Slaves(c, o)) \cap Ebc(c) # {}
               \/ IsTie(o) /\ ~o.same
               \/ o.kind \in {"rigid2", "average_force"} /\ Len(o.ref) # 1
Refused(c, st) == (st = 0 /\ Overlap(c)) \/ \E j \in DOMAIN Ops(c, st) : BadOp(c, Ops(c, st)[j])
Constrained(c, st) == UNION {Masters(c, Ops(c, st)[j]) : j \in DOMAIN Ops(c, st)}
Free(c, st) == (0..(c.ndof - 1)) \ (Ebc(c) \cup Constrained(c, st))
Total(c, st) == Cardinality(Free(c, st)) + SumSeq([j \in DOMAIN Ops(c, st) |-> New(Ops(c, st)[j])])
\* --- constraints on a full state u ---
At(u, dofs) == [k \in DOMAIN dofs |-> u[dofs[k] + 1]]
\* nodes forming parallelograms are displaced affinely
Affine(u, n) == \A a, b, p, q \in DOMAIN n :
  (a < b /\ a < p /\ p < q /\ Plus(n[a][1], n[b][1]) = Plus(n[p][1], n[q][1])) =>
    NearV(Minus(Plus(At(u, n[a][2]), At(u, n[b][2])), Plus(At(u, n[p][2]), At(u, n[q][2]))), 4)
Rigid(u, n) == \A a, b \in DOMAIN n : a < b =>
  Near(Dot(Minus(At(u, n[a][2]), At(u, n[b][2])), Minus(n[a][1], n[b][1])), 40)
Normal(o, j) == LET fs == SelectSeq(o.facets, LAMBDA f : j \in Rng(f[2]))
                IN [k \in 1..o.dim |-> SumSeq([m \in DOMAIN fs |-> fs[m][1][k]])]
Parallel(a, d, tol) == \A p, q \in DOMAIN a : p < q => Near(a[p] * d[q] - a[q] * d[p], tol)
Unit(v) == [k \in DOMAIN v |-> IF v[k] > 0 THEN 1 ELSE IF v[k] < 0 THEN -1 ELSE 0] \* axis aligned
EdgeDir(o, j) == LET ed == SelectSeq(o.edges, LAMBDA p : j \in Rng(p))
                     oth(p) == IF p[1] = j THEN p[2] ELSE p[1]
                     x(k) == o.n[k][1]
                 IN IF Len(ed) = 1 THEN Unit(Minus(x(oth(ed[1])), x(j)))
                    ELSE Minus(Unit(Minus(x(oth(ed[1])), x(j))), Unit(Minus(x(oth(ed[2])), x(j))))
First(s, d) == [k \in 1..d |-> s[k]]
Rot(s, d) == [k \in 1..NRot(d) |-> s[d + k]]
Rigid2(u, o) == LET q == At(u, o.ref[1][2]) IN \A j \in DOMAIN o.n :
  LET e == Minus(At(u, o.n[j][2]), First(q, o.dim))
  IN NearV(IF Len(q) = o.dim THEN e ELSE Minus(e, Spin(Rot(q, o.dim), Minus(o.n[j][1], o.ref[1][1]))), 40)
AvgForce(u, o) == LET q == At(u, o.ref[1][2]) d == o.dim m == Len(o.n) rot == Len(q) > d
    x(j) == Minus(o.n[j][1], o.ref[1][1])
    \* weighted differences of nodes and of the rigid motion of the reference node
    e(j) == LET r == Minus(IF rot THEN Plus(First(q, d), Spin(Rot(q, d), x(j))) ELSE First(q, d), At(u, o.n[j][2]))
            IN [k \in 1..d |-> o.w[j][k] * r[k]]
    mom(j) == LET y == Moment(e(j), x(j)) IN [k \in 1..NRot(d) |-> y[k] + o.w[j][d + k] * o.l2 * q[d + k]]
  IN /\ NearV(SumV(e, m, d), 400)
     /\ (rot /\ o.l2 >= 0) => NearV(SumV(mom, m, NRot(d)), 4000)
\* screw: two rigid parts turn against each other around the axis, by phi = p / q, and move along it by h phi
Quads(o) == {x \in (DOMAIN o.n) \X (DOMAIN o.n) \X (DOMAIN o.n2) \X (DOMAIN o.n2) :
               x[1] # x[2] /\ Minus(o.n[x[2]][1], o.n[x[1]][1]) = Minus(o.n2[x[4]][1], o.n2[x[3]][1])}
Twist(u, o) == LET
    X(j) == o.n[j][1] Y(j) == o.n2[j][1] U(j) == At(u, o.n[j][2]) W(j) == At(u, o.n2[j][2]) a == o.axis
    Qs == Quads(o)
    D(x) == Minus(X(x[2]), X(x[1]))
    P(x) == Cross(a, D(x))
    Rel(x) == Minus(Minus(W(x[4]), W(x[3])), Minus(U(x[2]), U(x[1])))
    Turn == {x \in Qs : Dot(P(x), P(x)) > 0}
    x0 == CHOOSE x \in Turn : TRUE
    p == Dot(Rel(x0), P(x0)) q == Dot(P(x0), P(x0))
    perp(v) == [k \in 1..3 |-> IF a[k] = 0 THEN v[k] ELSE 0]
  IN /\ Rigid(u, o.n) /\ Rigid(u, o.n2) /\ Affine(u, o.n) /\ Affine(u, o.n2)
     /\ Turn # {} =>
        /\ \A x \in Turn : /\ NearV(Cross(Rel(x), P(x)), 200)
                           /\ Near(Dot(Rel(x), P(x)) * q - p * Dot(P(x), P(x)), 2000)
        /\ \A x \in Qs : Cross(a, Minus(Y(x[3]), X(x[1]))) = <<0, 0, 0>> =>
             /\ Near(Dot(a, Minus(W(x[3]), U(x[1]))) * q - o.thread * p, 2000)
        \* around the anchor: compare with the rotation of the axis seen in one of the parts
        /\ \A j \in DOMAIN o.n : \A k \in DOMAIN o.n2 : Cross(a, Minus(Y(k), X(j))) = <<0, 0, 0>> =>
             LET l == Dot(a, Minus(Y(k), X(j)))
                 dd == perp(Minus(W(k), U(j)))
                 mid == Cross(a, Minus(Plus(X(j), Y(k)), Plus(o.anchor, o.anchor)))
                 Ok(m, w) == NearV([r \in 1..3 |-> 2 * m * q * dd[r] - 2 * l * q * perp(w)[r] - m * p * mid[r]], 20000)
             IN /\ \A j2 \in DOMAIN o.n : (j2 # j /\ Cross(a, Minus(X(j2), X(j))) = <<0, 0, 0>>) =>
                     Ok(Dot(a, Minus(X(j2), X(j))), Minus(U(j2), U(j)))
                /\ \A k2 \in DOMAIN o.n2 : (k2 # k /\ Cross(a, Minus(Y(k2), Y(k))) = <<0, 0, 0>>) =>
                     Ok(Dot(a, Minus(Y(k2), Y(k))), Minus(W(k2), W(k)))
Holds(c, o, u) ==
  CASE o.kind = "rigid" -> Affine(u, o.n) /\ (Len(o.comps) = o.dim => Rigid(u, o.n))
    [] o.kind = "rigid_twist" -> Twist(u, o)
    [] o.kind = "rigid2" -> Rigid2(u, o)
    [] o.kind = "average_force" -> AvgForce(u, o)
    [] o.kind = "no_penetration" -> \A j \in DOMAIN o.n : Near(Dot(At(u, o.n[j][2]), Normal(o, j)), 40)
    [] o.kind = "normal_direction" -> \A j \in DOMAIN o.n : Parallel(At(u, o.n[j][2]), Normal(o, j), 40)
    [] o.kind = "edge_direction" -> \A j \in DOMAIN o.n : Parallel(At(u, o.n[j][2]), EdgeDir(o, j), 40)
    [] o.kind = "integral_mean_value" -> Cardinality({u[d + 1] : d \in NDofs(o.n)}) = 1
    [] o.kind = "nodal_combination" -> \A j \in DOMAIN o.n : \A r \in DOMAIN o.A :
          Near(Dot(At(u, o.n[j][2]), o.A[r]) - Sc * o.b[r], 40)
    [] IsTie(o) -> \A j \in DOMAIN LivePairs(c, o) : LET p == LivePairs(c, o)[j] IN Near(u[p[1] + 1] - u[p[2] + 1] - p[3], 4)
    [] o.kind = "multi_node_combination" -> \A j \in DOMAIN o.comb :
          Near(u[o.comb[j][1] + 1] - SumSeq([k \in DOMAIN o.comb[j][2] |-> o.comb[j][2][k][2] * u[o.comb[j][2][k][1] + 1]]), 40)
Clauses(k, e) == LET c == Cf(k) st == e.step os == Ops(c, st) F == Free(c, st) IN
  IF Overlap(c) /\ st > 0 THEN <<>> \* refused already in step 0
  ELSE IF Refused(c, st) THEN << <<"refused", e.raised # "">> >>
  ELSE IF e.raised # "" THEN << <<"accepted", FALSE>> >>
  ELSE
  << <<"count", e.nred = Total(c, st)>>,
     <<"free", \A d \in F : Len(e.rows[d + 1]) = 1 /\ e.rows[d + 1][1] > 0>>,
     <<"independent", Cardinality({e.rows[d + 1] : d \in F}) = Cardinality(F)>>,
     <<"no_idle", (\E q \in DOMAIN os : os[q].kind = "rigid") \/ \A j \in DOMAIN e.cols : e.cols[j] > 0>>,
     <<"ebc", \A v \in DOMAIN e.vecs : \A j \in DOMAIN c.ebc : e.vecs[v][c.ebc[j][1] + 1] = c.ebc[j][2]>>,
     <<"round_trip", e.trip>>, <<"not_stale", e.stale>> >>
  \o [j \in DOMAIN os |-> <<os[j].kind, \A v \in DOMAIN e.vecs : Holds(c, os[j], e.vecs[v])>>]
TInit == t \in 1..NT /\ i = 1
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, Ev(t, i))))
         /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
===========================================================================
