------------------------------ MODULE CoverMC ------------------------------
(* Repeated refinement of small complexes of cells in all relative         *)
(* orientations: uniformly, or of some cells with hanging facets (cells    *)
(* next to hanging facets are not refined).                                *)
EXTENDS Cover, Json, TLC
CONSTANTS Start, MaxOps, MaxRef, MaxHist
VARIABLES a, b, ch, ref, subs0, subs, esubs, nops, hist
vars == <<a, b, ch, ref, subs0, subs, esubs, nops, hist>>
\* Children: sequences of sets of local vertices.
Tmpl(k) ==
  CASE k = "1_2" -> << <<{1}, {1, 2}>>, <<{1, 2}, {2}>> >>
  [] k = "2_3" -> << <<{1}, {1, 2}, {1, 3}>>, <<{1, 2}, {2, 3}, {1, 3}>>, <<{2}, {2, 3}, {1, 2}>>, <<{3}, {1, 3}, {2, 3}>> >>
  [] k = "2_4" -> [j \in 1..4 |-> <<{j}, {j, (j % 4) + 1}, 1..4, {j, ((j + 2) % 4) + 1}>>]
  [] k = "3_4" -> << <<{1}, {1, 2}, {1, 3}, {1, 4}>>, <<{1, 2}, {2}, {2, 3}, {2, 4}>>, <<{1, 3}, {2, 3}, {3}, {3, 4}>>,
                     <<{1, 4}, {2, 4}, {3, 4}, {4}>>, <<{1, 2}, {1, 3}, {1, 4}, {2, 4}>>, <<{1, 2}, {1, 3}, {2, 4}, {2, 3}>>,
                     <<{1, 3}, {1, 4}, {2, 4}, {3, 4}>>, <<{1, 3}, {2, 3}, {3, 4}, {2, 4}>> >>
  [] k = "3_8" -> LET nb == [j \in 1..8 |-> (CHOOSE s \in LCorners("3_8") : s[1] = j)]
                      face(p) == CHOOSE f \in LFaces("3_8") : p \subseteq f
                  IN [j \in 1..8 |-> LET p == nb[j][2] q == nb[j][3] r == nb[j][4] IN
                       <<{j}, {j, p}, face({j, p, q}), {j, q}, {j, r}, face({j, p, r}), 1..8, face({j, q, r})>>]
Divide(p, n) == [j \in DOMAIN p |-> p[j] \div n]
PosOf(m, c, ls) == Divide(Sum(m, Verts(c, ls)), Cardinality(ls))
IndexOf(x, p) == (CHOOSE j \in DOMAIN x : x[j] = p) - 1
Free(m, hs) == {n \in DOMAIN m.cells : Facets(m.cells[n]) \cap hs = {}}
\* Also away from hanging edges.
FreeE(m, es) == {n \in DOMAIN m.cells : Edges(m.cells[n]) \cap es = {}}
RefMesh(m, R) ==
  LET T(n) == IF n \in R THEN Tmpl(m.cells[n][1]) ELSE << [j \in 1..NVert(m.cells[n][1]) |-> {j}] >>
      pos == UNION {{PosOf(m, m.cells[n], T(n)[q][j]) : q \in DOMAIN T(n), j \in 1..NVert(m.cells[n][1])} : n \in R}
      x == m.x \o SetToSeq(pos \ Points(m))
      Child(n, q) == <<m.cells[n][1], m.cells[n][2], [j \in 1..NVert(m.cells[n][1]) |-> IndexOf(x, PosOf(m, m.cells[n], T(n)[q][j]))]>>
      first == [n \in DOMAIN m.cells |-> Child(n, 1)]
      rest == [n \in DOMAIN m.cells |-> [q \in 1..(Len(T(n)) - 1) |-> Child(n, q + 1)]]
  IN [m |-> [dim |-> m.dim, x |-> x, vg |-> [j \in DOMAIN x |-> 0], cells |-> first \o FlattenSeq(rest)],
      ch |-> [n \in DOMAIN m.cells |-> n] \o FlattenSeq([n \in DOMAIN m.cells |-> [q \in 1..(Len(T(n)) - 1) |-> n]])]
\* Facets (edges) whose halves are facets (edges) of other cells.
NewSubs(m, fs) == {<<f, {g \in fs : g # f /\ Pts8(m, g) \subseteq FacetPos(m, f) /\ Cardinality(g \cap f) = 1}>> : f \in fs}
WithCells(m, s) == {<<x[1], x[2], {n \in DOMAIN m.cells : Facets(m.cells[n]) \cap x[2] # {}}>> : x \in s}
SubsIn(m) == {s \in NewSubs(m, AllFacets(m)) : s[2] # {} /\ Cardinality(s[2]) = NFSub(m.dim)}
EdgeSubs(m) ==
  LET es == UNION {Edges(m.cells[n]) : n \in DOMAIN m.cells}
      Halves(e) == {g \in es : Cardinality(g \cap e) = 1 /\ \E v \in g : Scaled(m, v) = Mean8(m, e)}
  IN {<<e, Halves(e), {n \in DOMAIN m.cells : Edges(m.cells[n]) \cap Halves(e) # {}}>> : e \in {f \in es : Cardinality(Halves(f)) = 2}}

\* Complexes.
Quad(p) == <<"2_4", 1, p>>
G2(k, w) == \* 2 x 2 and 2 x 1 grids of the given width
  [x |-> << <<0, 0>>, <<w, 0>>, <<2 * w, 0>>, <<0, w>>, <<w, w>>, <<2 * w, w>>, <<0, 2 * w>>, <<w, 2 * w>>, <<2 * w, 2 * w>> >>]
H3(w) == [x |-> FlattenSeq([z \in 1..2 |-> FlattenSeq([y \in 1..3 |-> [q \in 1..3 |-> <<w * (q - 1), w * (y - 1), w * (z - 1)>>]])])]
Hex(i, j) == LET v(p, q, r) == (9 * r) + (3 * q) + p IN
  <<"3_8", (i + 2 * j) + 1, <<v(i, j, 0), v(i + 1, j, 0), v(i + 1, j + 1, 0), v(i, j + 1, 0),
                              v(i, j, 1), v(i + 1, j, 1), v(i + 1, j + 1, 1), v(i, j + 1, 1)>>>>
M(dim, x, cells) ==
  LET used == UNION {ToSet(cells[n][3]) : n \in DOMAIN cells}
      ord == SetToSortSeq(used, <)
      new(v) == (CHOOSE j \in DOMAIN ord : ord[j] = v) - 1
  IN [dim |-> dim, x |-> [j \in DOMAIN ord |-> x[ord[j] + 1]], vg |-> [j \in DOMAIN ord |-> 0],
      cells |-> [n \in DOMAIN cells |-> <<cells[n][1], cells[n][2], [j \in DOMAIN cells[n][3] |-> new(cells[n][3][j])]>>]]
Starts ==
  CASE Start = "tri" -> {M(2, <<<<0, 0>>, <<16, 0>>, <<0, 16>>, <<16, 16>>>>, <<<<"2_3", 1, <<0, 1, 2>>>>, <<"2_3", 2, p>>>>)
                         : p \in {<<1, 3, 2>>, <<3, 2, 1>>, <<2, 1, 3>>}}
  [] Start = "quad" -> {M(2, G2("2_4", 16).x, <<Quad(<<0, 1, 4, 3>>), Quad(p), Quad(<<3, 4, 7, 6>>), Quad(<<8, 7, 4, 5>>)>>)
                         : p \in {<<1, 2, 5, 4>>, <<2, 5, 4, 1>>, <<5, 4, 1, 2>>, <<4, 1, 2, 5>>}}
                       \cup {M(2, G2("2_4", 16).x, <<Quad(<<0, 1, 4, 3>>), Quad(<<2, 5, 4, 1>>), Quad(<<4, 7, 6, 3>>)>>)}
  [] Start = "tet" -> {M(3, <<<<0, 0, 0>>, <<16, 0, 0>>, <<0, 16, 0>>, <<0, 0, 16>>, <<16, 16, 16>>>>,
                             <<<<"3_4", 1, <<0, 1, 2, 3>>>>, <<"3_4", 2, p>>>>)
                         : p \in {q \in {s \in [1..4 -> 1..4] : Cardinality({s[1], s[2], s[3], s[4]}) = 4} :
                                  SVol([x |-> <<<<0, 0, 0>>, <<16, 0, 0>>, <<0, 16, 0>>, <<0, 0, 16>>, <<16, 16, 16>>>>],
                                       <<"3_4", 2, q>>, <<1, 2, 3, 4>>) > 0}}
  [] Start = "hex" -> {M(3, H3(8).x, <<Hex(0, 0), <<"3_8", 2, p>>>>)
                         : p \in {<<1, 2, 5, 4, 10, 11, 14, 13>>, <<5, 4, 1, 2, 14, 13, 10, 11>>, <<10, 1, 4, 13, 11, 2, 5, 14>>,
                                  <<2, 1, 10, 11, 5, 4, 13, 14>>, <<13, 14, 11, 10, 4, 5, 2, 1>>}}
                      \cup {M(3, H3(8).x, <<Hex(0, 0), Hex(1, 1)>>), M(3, H3(8).x, <<Hex(0, 0), Hex(1, 0), Hex(0, 1)>>)}
Init == /\ a \in Starts /\ b = a /\ ch = [n \in DOMAIN a.cells |-> n] /\ ref = {} /\ subs0 = {} /\ subs = {} /\ esubs = {}
        /\ nops = 0 /\ hist = <<>>
Do(R) == LET r == RefMesh(b, R) IN
  /\ a' = b /\ b' = r.m /\ ch' = r.ch /\ ref' = R /\ subs0' = subs
  /\ subs' = WithCells(r.m, {s \in SubsIn(r.m) : s[1] \in Boundary(r.m)}) /\ esubs' = (IF b.dim = 3 THEN EdgeSubs(r.m) ELSE {})
  /\ nops' = nops + 1 /\ UNCHANGED hist
CanHang == Start \in {"quad", "hex"}
Allowed == Free(b, Masters(subs) \cup Slaves(subs)) \cap FreeE(b, Masters(esubs) \cup Slaves(esubs))
Next == nops < MaxOps /\
  \/ subs = {} /\ esubs = {} /\ Do(DOMAIN b.cells)
  \/ CanHang /\ \E R \in (SUBSET Allowed) \ {{}} : (Cardinality(R) <= MaxRef \/ R = Allowed) /\ Do(R)
Spec == Init /\ [][Next]_vars
All(cl) == \A k \in DOMAIN cl : cl[k][2]
Cover1 == nops > 0 => All(Hanging(a, b, ch, ref, subs0, subs, esubs))
Conforms == (nops > 0 /\ ref = DOMAIN a.cells /\ subs = {} /\ subs0 = {}) => Nested(a, b, Boundary(a), Boundary(b), LAMBDA f : NFSub(a.dim))
Kept == Total(b) = Total(a)
\* One level: the halves of a hanging facet are not divided.
OneLevel == Masters(subs) \cap Slaves(subs) = {}
SimInit == a = <<>> /\ b = <<>> /\ ch = <<>> /\ ref = {} /\ subs0 = {} /\ subs = {} /\ esubs = {} /\ nops = 0 /\ hist = <<>>
SimNext == /\ Len(hist) < MaxHist
           /\ \E x \in {[k \in 1..4 |-> RandomElement((0..23) \ {-Len(hist)})]} : hist' = Append(hist, x)
           /\ UNCHANGED <<a, b, ch, ref, subs0, subs, esubs, nops>>
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) < MaxHist \/ PrintT(<<"@beh", ToJson(hist)>>)
============================================================================
