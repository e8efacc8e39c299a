---------------------------- MODULE FieldDofsMC ----------------------------
(* Cells with arbitrarily ordered vertices are added to a mesh, their nodes *)
(* get DOFs from the canonical frames of the facets.                        *)
EXTENDS FieldDofs, TLC, Json
CONSTANTS Desc, K, NV, NC, MaxHist
VARIABLES cells, hist
vars == <<cells, hist>>
Inj(n) == {s \in [1..n -> 1..NV] : Cardinality({s[k] : k \in 1..n}) = n}
NVc == Len(RefC(Desc))
VS(s) == {s[k] : k \in DOMAIN s}
\* Local facets (cyclic order for quadrilaterals).
LF == CASE Desc = "1_2" -> {}
        [] Desc = "2_3" -> {<<1, 2>>, <<2, 3>>, <<3, 1>>}
        [] Desc = "2_4" -> {<<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 1>>}
        [] Desc = "3_4" -> {<<1, 3, 2>>, <<1, 4, 3>>, <<1, 2, 4>>, <<2, 3, 4>>, <<1, 2>>, <<2, 3>>, <<3, 1>>, <<1, 4>>, <<2, 4>>, <<3, 4>>}
        [] OTHER -> {<<1, 4, 3, 2>>, <<1, 5, 8, 4>>, <<1, 2, 6, 5>>, <<5, 6, 7, 8>>, <<2, 3, 7, 6>>, <<4, 8, 7, 3>>,
                     <<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 1>>, <<5, 6>>, <<6, 7>>, <<7, 8>>, <<8, 5>>, <<1, 5>>, <<2, 6>>, <<3, 7>>, <<4, 8>>}
Sub(s) == {VS(f) : f \in {[k \in DOMAIN g |-> s[g[k]]] : g \in LF}} \cup {{v} : v \in VS(s)} \cup {{}}
\* Neighbours share whole facets, in the same cyclic order.
Conf(s, r) == /\ (VS(s) \cap VS(r)) \in (Sub(s) \cap Sub(r))
              /\ \A f \in LF, g \in LF : LET a == [k \in DOMAIN f |-> s[f[k]]]
                                             b == [k \in DOMAIN g |-> r[g[k]]]
                                         IN (Len(f) = 4 /\ VS(a) = VS(b)) => Frame(a) = Frame(b)
\* Hexahedra: the second cell on top of a face of the first one, any of the 8 x 6 x ... positions given by permuted numbers.
Cands == IF Desc = "3_8" THEN {<<1, 2, 3, 4, 5, 6, 7, 8>>} ELSE Inj(NVc)
HexRots == {<<1, 2, 3, 4, 5, 6, 7, 8>>, <<2, 3, 4, 1, 6, 7, 8, 5>>, <<4, 1, 2, 3, 8, 5, 6, 7>>, <<3, 4, 1, 2, 7, 8, 5, 6>>,
            <<5, 8, 7, 6, 1, 4, 3, 2>>, <<1, 5, 6, 2, 4, 8, 7, 3>>, <<1, 4, 8, 5, 2, 3, 7, 6>>, <<7, 3, 4, 8, 6, 2, 1, 5>>}
Hexes == LET Ps == {p \in [1..4 -> 1..4] : Cardinality({p[k] : k \in 1..4}) = 4}
         IN {[k \in 1..8 |-> LET b == <<5, 6, 7, 8, 9, 10, 11, 12>>[h[k]] IN IF b <= 8 THEN 4 + p[b - 4] ELSE b] : h \in HexRots, p \in Ps}
Firsts == IF Desc = "3_8" THEN {[k \in 1..8 |-> IF k <= 4 THEN k ELSE 4 + p[k - 4]] : p \in {q \in [1..4 -> 1..4] : Cardinality({q[k] : k \in 1..4}) = 4}} ELSE Cands
Init == cells \in {<<s>> : s \in Firsts} /\ hist = <<>>
AddCell == /\ Len(cells) < NC
           /\ \E s \in (IF Desc = "3_8" THEN Hexes ELSE Cands) : /\ \A k \in DOMAIN cells : VS(s) # VS(cells[k]) /\ Conf(s, cells[k])
                                                                /\ cells' = Append(cells, s)
           /\ UNCHANGED hist
Spec == Init /\ [][AddCell]_vars
Nodes == {<<c, x>> : c \in DOMAIN cells, x \in Lattice(Desc, K)}
IdOf(n) == Id(Desc, K, cells[n[1]], n[1], n[2])
\* The facet carrying a node, as seen by its cell.
Facet(n) == LET S == Supp(Desc, K, n[2])
                s == cells[n[1]]
            IN IF Cardinality(S) = 1 THEN <<s[CHOOSE j \in S : TRUE]>>
               ELSE LET g == CHOOSE g \in LF : VS(g) = S IN [k \in DOMAIN g |-> s[g[k]]]
DofOf(n) == IF Supp(Desc, K, n[2]) = DOMAIN cells[n[1]] THEN <<VS(cells[n[1]]), n[2]>> ELSE FacetDof(IdOf(n), Facet(n))
\* The numbering by frames identifies exactly the nodes in the same place.
Shared == LET P == {<<IdOf(n), DofOf(n)>> : n \in Nodes}
          IN Cardinality(P) = Cardinality({p[1] : p \in P}) /\ Cardinality(P) = Cardinality({p[2] : p \in P})
\* One node per vertex, K - 1 per edge, (K-1)^2 or (K-1)(K-2)/2 per face and so on.
AllF(n) == {F \in UNION {Sub(cells[c]) : c \in DOMAIN cells} : Cardinality(F) = n}
Count == Cardinality({IdOf(n) : n \in Nodes}) =
           Cardinality(AllF(1)) + (K - 1) * (IF Desc = "1_2" THEN 0 ELSE Cardinality(AllF(2)))
           + (IF Dim(Desc) = 3 THEN (IF Simplex(Desc) THEN (((K - 1) * (K - 2)) \div 2) * Cardinality(AllF(3)) ELSE (K - 1) * (K - 1) * Cardinality(AllF(4))) ELSE 0)
           + Len(cells) * (CASE Desc = "1_2" -> K - 1 [] Desc = "2_3" -> ((K - 1) * (K - 2)) \div 2 [] Desc = "2_4" -> (K - 1) * (K - 1)
                             [] Desc = "3_4" -> ((K - 1) * (K - 2) * (K - 3)) \div 6 [] OTHER -> (K - 1) * (K - 1) * (K - 1))
\* Weights are a partition of the whole.
Unity == \A x \in Lattice(Desc, K) : SumTo([j \in DOMAIN RefC(Desc) |-> W(Desc, K, x, j)], NVc) = Total(Desc, K)
SimInit == cells = <<>> /\ hist = <<>>
SimNext == /\ Len(hist) < MaxHist /\ UNCHANGED cells
           /\ hist' = Append(hist, [op |-> <<"region", "region", "setdofs", "setdofs", "sub", "surf", "poly", "cont", "cont", "refresh">>[RandomElement((1..10) \ {-Len(hist)})],
                                    w |-> RandomElement((0..9999) \ {-Len(hist)})])
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) = MaxHist => PrintT(<<"@beh", ToJson(hist)>>)
=============================================================================
