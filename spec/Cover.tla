------------------------------- MODULE Cover -------------------------------
(* Meshes as covers: a mesh is a record [dim, x, vg, cells] with integer   *)
(* points x and cells <<kind, group, vertices (from 0)>>.  What makes a    *)
(* mesh conforming, and what refining, merging, repeating, mirroring,      *)
(* extruding and selecting parts of a mesh give.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
NVert(k) == CASE k = "1_2" -> 2 [] k = "2_3" -> 3 [] k = "2_4" -> 4 [] k = "3_4" -> 4 [] k = "3_6" -> 6 [] k = "3_8" -> 8
KDim(k) == CASE k = "1_2" -> 1 [] k \in {"2_3", "2_4"} -> 2 [] OTHER -> 3
LEdges(k) ==
  CASE k = "1_2" -> {{1, 2}} [] k = "2_3" -> {{1, 2}, {2, 3}, {1, 3}} [] k = "2_4" -> {{1, 2}, {2, 3}, {3, 4}, {1, 4}}
  [] k = "3_4" -> {{1, 2}, {2, 3}, {1, 3}, {1, 4}, {2, 4}, {3, 4}}
  [] k = "3_6" -> {{1, 2}, {2, 3}, {1, 3}, {1, 4}, {2, 5}, {3, 6}, {4, 5}, {5, 6}, {4, 6}}
  [] k = "3_8" -> {{1, 2}, {2, 3}, {3, 4}, {1, 4}, {5, 6}, {6, 7}, {7, 8}, {5, 8}, {1, 5}, {2, 6}, {3, 7}, {4, 8}}
LFaces(k) ==
  CASE k = "3_4" -> {{1, 2, 3}, {1, 2, 4}, {1, 3, 4}, {2, 3, 4}}
  [] k = "3_6" -> {{1, 2, 3}, {4, 5, 6}, {1, 2, 4, 5}, {2, 3, 5, 6}, {1, 3, 4, 6}}
  [] k = "3_8" -> {{1, 2, 3, 4}, {5, 6, 7, 8}, {1, 2, 5, 6}, {2, 3, 6, 7}, {3, 4, 7, 8}, {1, 4, 5, 8}}
  [] OTHER -> {}
LFacets(k) == CASE KDim(k) = 1 -> {{1}, {2}} [] KDim(k) = 2 -> LEdges(k) [] OTHER -> LFaces(k)
\* Corners: <<vertex, its neighbours in the right-handed order>>.
LCorners(k) ==
  CASE k = "1_2" -> {<<1, 2>>}
  [] k = "2_3" -> {<<1, 2, 3>>} [] k = "2_4" -> {<<1, 2, 4>>, <<2, 3, 1>>, <<3, 4, 2>>, <<4, 1, 3>>}
  [] k = "3_4" -> {<<1, 2, 3, 4>>}
  [] k = "3_6" -> {<<1, 2, 3, 4>>, <<2, 3, 1, 5>>, <<3, 1, 2, 6>>, <<4, 6, 5, 1>>, <<5, 4, 6, 2>>, <<6, 5, 4, 3>>}
  [] k = "3_8" -> {<<1, 2, 4, 5>>, <<2, 3, 1, 6>>, <<3, 4, 2, 7>>, <<4, 1, 3, 8>>,
                   <<5, 8, 6, 1>>, <<6, 5, 7, 2>>, <<7, 6, 8, 3>>, <<8, 7, 5, 4>>}
\* Simplices whose signed volumes sum up to the volume (planar faces).
LSimplices(k) ==
  CASE k = "1_2" -> {<<1, 2>>} [] k = "2_3" -> {<<1, 2, 3>>} [] k = "2_4" -> {<<1, 2, 3>>, <<1, 3, 4>>}
  [] k = "3_4" -> {<<1, 2, 3, 4>>}
  [] k = "3_6" -> {<<1, 2, 3, 6>>, <<1, 2, 6, 5>>, <<1, 5, 6, 4>>}
  [] k = "3_8" -> {<<1, 3, 4, 7>>, <<1, 4, 8, 7>>, <<1, 8, 5, 7>>, <<1, 6, 7, 5>>, <<2, 6, 7, 1>>, <<2, 7, 3, 1>>}

\* Geometry.
Sub(a, b) == [j \in DOMAIN a |-> a[j] - b[j]]
Det(u) ==
  CASE Len(u) = 1 -> u[1][1]
  [] Len(u) = 2 -> (u[1][1] * u[2][2]) - (u[1][2] * u[2][1])
  [] Len(u) = 3 -> (u[1][1] * ((u[2][2] * u[3][3]) - (u[2][3] * u[3][2])))
                   - (u[1][2] * ((u[2][1] * u[3][3]) - (u[2][3] * u[3][1])))
                   + (u[1][3] * ((u[2][1] * u[3][2]) - (u[2][2] * u[3][1])))
X(m, c, j) == m.x[c[3][j] + 1]
\* dim! times the signed volume of a simplex of local vertices s.
SVol(m, c, s) == Det([j \in 1..(Len(s) - 1) |-> Sub(X(m, c, s[j + 1]), X(m, c, s[1]))])
Vol(m, c) == FoldSet(LAMBDA s, a : a + SVol(m, c, s), 0, LSimplices(c[1]))
Oriented(m, c) == \A s \in LCorners(c[1]) : SVol(m, c, s) > 0
Total(m) == FoldSeq(LAMBDA c, a : a + Vol(m, c), 0, m.cells)

\* Topology.
Verts(c, ls) == {c[3][j] : j \in ls}
Facets(c) == {Verts(c, f) : f \in LFacets(c[1])}
Edges(c) == {Verts(c, f) : f \in LEdges(c[1])}
AllFacets(m) == UNION {Facets(m.cells[n]) : n \in DOMAIN m.cells}
\* All the facets of all the cells, in a sequence.
FacetSeq(m) == FlattenSeq([n \in DOMAIN m.cells |-> SetToSeq(Facets(m.cells[n]))])
Single(m) == LET fs == FacetSeq(m) IN
  FoldSeq(LAMBDA f, a : IF f \in a[1] THEN <<a[1], a[2] \cup {f}>> ELSE <<a[1] \cup {f}, a[2]>>, <<{}, {}>>, fs)
Boundary(m) == LET s == Single(m) IN s[1] \ s[2]
\* No facet is in three or more cells.
AtMostTwo(m) == LET fs == FacetSeq(m) s == Single(m) IN
  Len(fs) = Cardinality(s[1]) + Cardinality(s[2])
Points(m) == {m.x[j] : j \in DOMAIN m.x}
DistinctPts(m) == Cardinality(Points(m)) = Len(m.x)
InRange(m) == \A n \in DOMAIN m.cells : LET c == m.cells[n] IN
  Len(c[3]) = NVert(c[1]) /\ (\A j \in DOMAIN c[3] : c[3][j] \in 0..(Len(m.x) - 1))
  /\ Cardinality({c[3][j] : j \in DOMAIN c[3]}) = NVert(c[1])
Used(m) == UNION {{m.cells[n][3][j] : j \in DOMAIN m.cells[n][3]} : n \in DOMAIN m.cells}
NoUnused(m) == Used(m) = 0..(Len(m.x) - 1)
Sane(m, orient) ==
  << <<"vertices_valid", InRange(m)>>, <<"no_double_vertices", DistinctPts(m)>>,
     <<"facets_in_two_cells", InRange(m) => AtMostTwo(m)>>,
     <<"oriented", (InRange(m) /\ orient) => \A n \in DOMAIN m.cells : Oriented(m, m.cells[n])>> >>

\* Positions (scaled by 8) of the points a refined cell may use.
Sum(m, vs) == LET d == Len(m.x[1]) IN [j \in 1..d |-> FoldSet(LAMBDA v, a : a + m.x[v + 1][j], 0, vs)]
Mean8(m, vs) == LET s == Sum(m, vs) n == Cardinality(vs) IN [j \in DOMAIN s |-> (8 * s[j]) \div n]
Scaled(m, v) == [j \in DOMAIN m.x[v + 1] |-> 8 * m.x[v + 1][j]]
\* Corners, middles of edges, centres of quadrilaterals and hexahedra.
EntPos(m, vs, es, fs, quad) ==
  {Scaled(m, v) : v \in vs} \cup {Mean8(m, e) : e \in es}
  \cup {Mean8(m, f) : f \in {g \in fs : Cardinality(g) = 4}} \cup (IF quad THEN {Mean8(m, vs)} ELSE {})
CellPos(m, c) == EntPos(m, Verts(c, 1..NVert(c[1])), Edges(c), {Verts(c, f) : f \in LFaces(c[1])}, c[1] \in {"2_4", "3_8"})
CellOf(m, f) == CHOOSE n \in DOMAIN m.cells : f \in Facets(m.cells[n])
FacetPos(m, f) == LET c == m.cells[CellOf(m, f)] IN
  IF Cardinality(f) = 1 THEN {Scaled(m, v) : v \in f}
  ELSE EntPos(m, f, {e \in Edges(c) : e \subseteq f}, {}, Cardinality(f) = 4)
Pts8(m, vs) == {Scaled(m, v) : v \in vs}
NSub(d) == CASE d = 1 -> 2 [] d = 2 -> 4 [] d = 3 -> 8
NFSub(d) == CASE d = 1 -> 1 [] d = 2 -> 2 [] d = 3 -> 4
\* ch: the parent (from 1) of each cell of b; ref: the refined cells of a.
Children(a, b, ch, ref) ==
  LET Of(n) == {j \in DOMAIN ch : ch[j] = n}
      PV == [n \in DOMAIN a.cells |-> CellPos(a, a.cells[n])]
  IN << <<"child_count", Len(ch) = Len(b.cells) /\ \A n \in DOMAIN a.cells :
                         Cardinality(Of(n)) = (IF n \in ref THEN NSub(a.dim) ELSE 1)>>,
        <<"child_group", \A j \in DOMAIN ch : b.cells[j][2] = a.cells[ch[j]][2] /\ b.cells[j][1] = a.cells[ch[j]][1]>>,
        <<"child_inside", \A j \in DOMAIN ch : Pts8(b, Verts(b.cells[j], 1..NVert(b.cells[j][1])))
                            \subseteq (IF ch[j] \in ref THEN PV[ch[j]] ELSE Pts8(a, Verts(a.cells[ch[j]], 1..NVert(b.cells[j][1]))))>>,
        <<"child_volume", \A n \in DOMAIN a.cells : FoldSet(LAMBDA j, s : s + Vol(b, b.cells[j]), 0, Of(n)) = Vol(a, a.cells[n])>>,
        <<"new_vertices", {[j \in DOMAIN p |-> 8 * p[j]] : p \in Points(b)} =
                          {[j \in DOMAIN p |-> 8 * p[j]] : p \in Points(a)} \cup UNION {PV[n] : n \in ref}>> >>
\* Each of the facets fb of b lies in one of fa of a, as many as there should be.
Nested(a, b, fa, fb, count(_)) ==
  LET P == [f \in fa |-> FacetPos(a, f)]
      In(f) == {g \in fb : Pts8(b, g) \subseteq P[f]}
  IN (\A f \in fa : Cardinality(In(f)) = count(f))
     /\ Cardinality(fb) = FoldSet(LAMBDA f, s : s + count(f), 0, fa)
Refined(a, b) ==
  LET n == NSub(a.dim) ch == [j \in DOMAIN b.cells |-> ((j - 1) \div n) + 1] IN
  Sane(b, TRUE) \o
  (IF InRange(b) /\ Len(b.cells) = n * Len(a.cells)
   THEN Children(a, b, ch, DOMAIN a.cells) \o << <<"boundary", Nested(a, b, Boundary(a), Boundary(b), LAMBDA f : NFSub(a.dim))>> >>
   ELSE << <<"child_count", FALSE>> >>)
\* Refinement of the cells ref with hanging facets: subs0, subs1: sets of
\* <<master, set of slaves, cells of the slaves>>, facets as sets of vertices, before and after, esubs1: of edges.
Masters(s) == {x[1] : x \in s}
Slaves(s) == UNION {x[2] : x \in s}
SubOk(b, x, n) == /\ Cardinality(x[2]) = n
  /\ LET P == FacetPos(b, x[1]) IN \A g \in x[2] : Pts8(b, g) \subseteq P /\ Cardinality(g \cap x[1]) = 1
  /\ x[1] \subseteq UNION x[2]
ESubOk(b, x) == Cardinality(x[2]) = 2 /\ \A g \in x[2] : Cardinality(g \cap x[1]) = 1
                /\ Cardinality(g) = 2 /\ (\E v \in g : Scaled(b, v) = Mean8(b, x[1])) /\ x[1] \subseteq UNION x[2]
HalfOf(b, g, e) == Cardinality(g \cap e) = 1 /\ \E v \in g : Scaled(b, v) = Mean8(b, e)
Hanging(a, b, ch, ref, subs0, subs1, esubs1) ==
  LET h0 == Masters(subs0) \cup Slaves(subs0) h1 == Masters(subs1) \cup Slaves(subs1)
      ba == Boundary(a) \ h0 bb == Boundary(b) \ h1
      owner(f) == CellOf(a, f)
      pts == [p \in {[j \in DOMAIN q |-> 8 * q[j]] : q \in Points(b)} |-> TRUE]
  IN Sane(b, TRUE) \o Children(a, b, ch, ref) \o
     << <<"old_vertices", \A j \in DOMAIN a.x : b.x[j] = a.x[j]>>,
        <<"coarse_kept", \A n \in (DOMAIN a.cells) \ ref : b.cells[n] = a.cells[n]>>,
        <<"hanging_listed", h1 \subseteq Boundary(b) /\ Masters(subs1) \cap Slaves(subs1) = {}>>,
        <<"hanging_nested", \A x \in subs1 : SubOk(b, x, NFSub(a.dim))>>,
        <<"boundary", Nested(a, b, ba, bb, LAMBDA f : IF owner(f) \in ref THEN NFSub(a.dim) ELSE 1)>>,
        <<"slave_cells", \A x \in subs1 : \A g \in x[2] : \E n \in x[3] : g \in Facets(b.cells[n])>>,
        <<"edges_listed", a.dim < 3 \/
            LET es == UNION {Edges(b.cells[n]) : n \in DOMAIN b.cells}
                hs == {e \in es : Mean8(b, e) \in DOMAIN pts}
            IN \A e \in hs : \A n \in DOMAIN b.cells : (\E g \in Edges(b.cells[n]) : HalfOf(b, g, e)) =>
                 (\E x \in subs1 : n \in x[3] /\ e \subseteq x[1]) \/ (\E x \in esubs1 : n \in x[3] /\ x[1] = e)>>,
        <<"edges_nested", \A x \in esubs1 : ESubOk(b, x)>> >>
\* Cells by positions: a bag kept as a sequence.
ByPos(m) == [n \in DOMAIN m.cells |-> LET c == m.cells[n] IN
               <<c[1], c[2], [j \in DOMAIN c[3] |-> m.x[c[3][j] + 1]]>>]
SameBag(s, t) == Len(s) = Len(t) /\ LET S == ToSet(s) IN S = ToSet(t)
  /\ \A x \in S : Cardinality({j \in DOMAIN s : s[j] = x}) = Cardinality({j \in DOMAIN t : t[j] = x})
Shift(p, d) == [j \in DOMAIN p |-> p[j] + d[j]]
Moved(s, d) == [n \in DOMAIN s |-> <<s[n][1], s[n][2], [j \in DOMAIN s[n][3] |-> Shift(s[n][3][j], d)]>>]
\* Groups of the vertices by position.
VgAt(m, p) == {m.vg[j] : j \in {k \in DOMAIN m.x : m.x[k] = p}}
VgFrom(b, Src(_)) == \A j \in DOMAIN b.x : b.vg[j] \in Src(b.x[j])
\* The cells as sets of positions: independent of the orientation.
Shapes(s) == [n \in DOMAIN s |-> <<s[n][1], s[n][2], ToSet(s[n][3])>>]
=============================================================================
