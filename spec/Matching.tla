------------------------------ MODULE Matching ------------------------------
(* Points of two matching sides and the pairs of images.  Points are tuples *)
(* of integers, a side is a sequence of points (the numbering).             *)
EXTENDS Integers, Sequences, FiniteSets
Add(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
Sub(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
\* v is parallel to d (all 2 x 2 determinants vanish), d # 0.
Parallel(v, d) == \A j, k \in DOMAIN v : v[j] * d[k] = v[k] * d[j]
NoDoubles(P) == \A j, k \in DOMAIN P : P[j] = P[k] => j = k
PairsBy(P, Q, shift) == {<<j, k>> \in (DOMAIN P) \X (DOMAIN Q) : Q[k] = Add(P[j], shift)}
Bijection(M, n) == {m[1] : m \in M} = 1..n /\ {m[2] : m \in M} = 1..n /\ Cardinality(M) = n
\* The shifts along d that map one side to the other one.
Shifts(P, Q, d) == {s \in {Sub(Q[k], P[1]) : k \in DOMAIN Q} : Parallel(s, d) /\ Bijection(PairsBy(P, Q, s), Len(P))}
Zero(P) == [k \in DOMAIN P[1] |-> 0]
\* How the sides are matched: along a direction, in place, by a coordinate of lines, by the mean shift of mirrors.
Kinds == {"dir", "coors", "line"}
Match(P, Q, kind, d) ==
  IF Len(P) # Len(Q) \/ ~NoDoubles(P) \/ ~NoDoubles(Q) THEN {}
  ELSE IF kind = "coors" THEN LET M == PairsBy(P, Q, Zero(P)) IN IF Bijection(M, Len(P)) THEN M ELSE {}
  ELSE IF kind = "line" THEN LET M == {<<j, k>> \in (DOMAIN P) \X (DOMAIN Q) : Q[k][d] = P[j][d]} IN IF Bijection(M, Len(P)) THEN M ELSE {}
  ELSE LET S == Shifts(P, Q, d) IN IF S = {} THEN {} ELSE PairsBy(P, Q, CHOOSE s \in S : TRUE)
=============================================================================
