----------------------------- MODULE FieldDofs -----------------------------
(* Degrees of freedom of finite element fields.  A node of a cell is given  *)
(* by its lattice position in the reference cell; its identity is the set   *)
(* of <<vertex, weight>> pairs of the mesh vertices carrying it.  Nodes are *)
(* one DOF exactly when their identities are equal: no orientation tables   *)
(* are needed to say what is to be shared.                                  *)
EXTENDS Integers, Sequences, FiniteSets
Descs == {"1_2", "2_3", "2_4", "3_4", "3_8"}
Simplex(d) == d \in {"1_2", "2_3", "3_4"}
Dim(d) == CASE d = "1_2" -> 1 [] d \in {"2_3", "2_4"} -> 2 [] OTHER -> 3
RefC(d) == CASE d = "1_2" -> <<<<0>>, <<1>>>>
             [] d = "2_3" -> <<<<0, 0>>, <<1, 0>>, <<0, 1>>>>
             [] d = "2_4" -> <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>
             [] d = "3_4" -> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
             [] d = "3_8" -> <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>>>
RECURSIVE SumTo(_, _), ProdTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)
\* The weight of the local vertex j in the lattice node x of order k (the sum over vertices: k or k^dim).
W(d, k, x, j) == IF Simplex(d) THEN (IF j = 1 THEN k - SumTo(x, Len(x)) ELSE x[j - 1])
                 ELSE ProdTo([a \in DOMAIN x |-> IF RefC(d)[j][a] = 1 THEN x[a] ELSE k - x[a]], Len(x))
Total(d, k) == IF Simplex(d) THEN k ELSE ProdTo([a \in 1..Dim(d) |-> k], Dim(d))
Supp(d, k, x) == {j \in DOMAIN RefC(d) : W(d, k, x, j) > 0}
\* <<0 or the cell of an interior node, the carrying vertices and weights>>
Id(d, k, conn, c, x) == LET S == Supp(d, k, x) IN <<IF S = DOMAIN conn THEN c ELSE 0, {<<conn[j], W(d, k, x, j)>> : j \in S}>>
Verts(id) == {p[1] : p \in id[2]}
Lattice(d, k) == IF d = "1_2" THEN {<<a>> : a \in 0..k}
                 ELSE IF Dim(d) = 2 THEN {x \in {<<a, b>> : a \in 0..k, b \in 0..k} : Simplex(d) => x[1] + x[2] <= k}
                 ELSE {x \in {<<a, b, c>> : a \in 0..k, b \in 0..k, c \in 0..k} : Simplex(d) => x[1] + x[2] + x[3] <= k}
\* --- Global numbering by sorted facets, as a program does it.
MinS(S) == CHOOSE a \in S : \A b \in S : a <= b
RECURSIVE SortS(_)
SortS(S) == IF S = {} THEN <<>> ELSE <<MinS(S)>> \o SortS(S \ {MinS(S)})
WeightOf(id, v) == IF v \in Verts(id) THEN (CHOOSE p \in id[2] : p[1] = v)[2] ELSE 0
\* Facet vertices in the order seen by a cell (quadrilaterals cyclic); the canonical frame starts in the
\* smallest vertex, quadrilaterals continue to its smaller neighbour.
Frame(f) == IF Len(f) < 4 THEN SortS({f[k] : k \in DOMAIN f})
            ELSE LET m == CHOOSE k \in 1..4 : \A l \in 1..4 : f[k] <= f[l]
                     n == f[(m % 4) + 1]
                     p == f[((m + 2) % 4) + 1]
                     o == f[((m + 1) % 4) + 1]
                 IN IF n < p THEN <<f[m], n, o, p>> ELSE <<f[m], p, o, n>>
\* Sum of the weights of the vertices 2, 3 resp. 3, 4 of the frame: the two lattice coordinates of quadrilaterals.
Pos(id, f) == LET g == Frame(f)
                  w == [k \in DOMAIN g |-> WeightOf(id, g[k])]
              IN CASE Len(g) = 1 -> <<0, 0>> [] Len(g) = 2 -> <<w[2], 0>> [] Len(g) = 3 -> <<w[2], w[3]>>
                   [] OTHER -> <<w[2] + w[3], w[3] + w[4]>>
\* The DOF of a node of a facet: the facet and the position in its frame.
FacetDof(id, f) == <<{f[k] : k \in DOMAIN f}, Pos(id, f)>>
=============================================================================
