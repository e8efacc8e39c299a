------------------------------- MODULE Lcbc -------------------------------
(* Linear combination boundary conditions: which DOFs are constrained, how *)
(* many new ones replace them, and the constraints.                        *)
EXTENDS Integers, Sequences, FiniteSets
MR == {"rigid", "rigid_twist", "no_penetration", "normal_direction", "edge_direction", "integral_mean_value",
       "nodal_combination"}
Pick3(r, k) == IF k \in DOMAIN r THEN r[k] ELSE 0
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE s[1] + SumS(Tail(s))
Dot(a, b) == SumS([k \in DOMAIN a |-> a[k] * b[k]])
Minus(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Plus(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* rotation by r of the point x (r has one component in 2D)
Spin(r, x) == IF Len(x) = 2 THEN <<-x[2] * r[1], x[1] * r[1]>> ELSE Cross(r, x)
\* its transpose: moment of the force y in x
Moment(y, x) == IF Len(x) = 2 THEN <<x[1] * y[2] - x[2] * y[1]>> ELSE Cross(x, y)
NRot(dim) == IF dim = 2 THEN 1 ELSE 3
SumV(F(_), n, d) == [k \in 1..d |-> SumS([j \in 1..n |-> F(j)[k]])]
Near(a, tol) == a <= tol /\ -a <= tol
NearV(v, tol) == \A k \in DOMAIN v : Near(v[k], tol)
\* number of new DOFs of an operator on n nodes
NewDofs(kind, n, dim, dpn, nceq) ==
  CASE kind = "rigid" -> dim + NRot(dim)
    [] kind = "rigid_twist" -> dim + NRot(dim) + 1
    [] kind = "no_penetration" -> n * (dim - 1)
    [] kind \in {"normal_direction", "edge_direction"} -> n
    [] kind = "integral_mean_value" -> 1
    [] kind = "nodal_combination" -> n * (dpn - nceq)
    [] OTHER -> 0
===========================================================================
