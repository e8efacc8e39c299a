---------------------------- MODULE CoverTrace ----------------------------
(* Meshes generated, refined, merged and selected by the real code.        *)
EXTENDS Cover, TraceLib
VARIABLES t, i
Pre(k, j) == LET n == Trace[k].ev[j].pre IN IF n = 0 THEN Trace[k].m ELSE Trace[k].ev[n].q
SetOf(s) == {<<ToSet(s[n][1]), {ToSet(s[n][2][q]) : q \in DOMAIN s[n][2]}, {c + 1 : c \in ToSet(s[n][3])}>> : n \in DOMAIN s}
\* Next to hanging facets or edges: not to be refined.
Busy(m, s0, ref) ==
  LET h == Masters(s0) \cup Slaves(s0)
      pts == {[j \in DOMAIN q |-> 8 * q[j]] : q \in Points(m)}
      es == UNION {Edges(m.cells[n]) : n \in DOMAIN m.cells}
      hs == IF m.dim < 3 \/ s0 = {} THEN {} ELSE {e \in es : Mean8(m, e) \in pts}
  IN \E n \in ref : Facets(m.cells[n]) \cap h # {} \/ Edges(m.cells[n]) \cap hs # {}
       \/ \E e \in hs : \E g \in Edges(m.cells[n]) : HalfOf(m, g, e)
Groups(e) == << <<"region_members", \A n \in DOMAIN e.rg :
   ToSet(e.rg[n][2]) = {c - 1 : c \in {q \in DOMAIN e.q.cells : e.q.cells[q][2] = e.rg[n][1]}}>> >>
Span(m, ax) == Max({p[ax] : p \in Points(m)}) - Min({p[ax] : p \in Points(m)})
Flat(m) == {p : p \in Points(m)}
Uniform(k) == {c[1] : c \in ToSet(k.cells)}
Kind(m) == Cardinality({m.cells[n][1] : n \in DOMAIN m.cells}) = 1
\* 6 times the volume of layers of height h above the planar mesh m.
Prism(m, h) == 3 * Total(m) * h
NFacetsOut(m, n, wtt, closed) ==
  \* Sides of boundary edges, bottom and top, in n layers.
  LET nt == Cardinality({c \in DOMAIN m.cells : m.cells[c][1] = "2_3"})
      nq == Len(m.cells) - nt
      triEdge(f) == m.cells[CellOf(m, f)][1] = "2_3"
      bs == Boundary(m)
  IN (n * FoldSet(LAMBDA f, s : s + (IF wtt /\ triEdge(f) THEN 2 ELSE 1), 0, bs)) + (IF closed THEN 0 ELSE 2 * (nt + nq))
MixedT(m, wtt) == wtt /\ Cardinality({c[1] : c \in ToSet(m.cells)}) > 1
NCells(m, n, wtt) == n * (Len(m.cells) + (IF wtt THEN 2 * Cardinality({c \in DOMAIN m.cells : m.cells[c][1] = "2_3"}) ELSE 0))
GroupCount(m, g, wtt) == FoldSet(LAMBDA c, s : s + (IF m.cells[c][2] # g THEN 0 ELSE IF wtt /\ m.cells[c][1] = "2_3" THEN 3 ELSE 1), 0, DOMAIN m.cells)
Layers(m, e, n, closed) ==
  Sane(e.q, TRUE) \o
  << <<"layer_cells", Len(e.q.cells) = NCells(m, n, e.wtt)>>,
     <<"layer_vertices", Len(e.q.x) = Len(m.x) * (IF closed THEN n ELSE n + 1)>>,
     <<"layer_groups", \A g \in {m.cells[c][2] : c \in DOMAIN m.cells} :
          Cardinality({c \in DOMAIN e.q.cells : e.q.cells[c][2] = g}) = n * GroupCount(m, g, e.wtt)>>,
     <<"boundary", MixedT(m, e.wtt) \/ Cardinality(Boundary(e.q)) = NFacetsOut(m, n, e.wtt, closed)>> >>
PosBag(m) == ByPos(m)
Only(m, cs) == [n \in DOMAIN cs |-> PosBag(m)[cs[n]]]
Sel(m, P(_)) == SelectSeq([n \in DOMAIN m.cells |-> n], P)
Picked(m, e, cs) ==
  << <<"picked", SameBag(ByPos(e.q), Only(m, cs))>>, <<"no_double_vertices", DistinctPts(e.q)>>,
     <<"free_vertices", e.only => NoUnused(e.q)>>,
     <<"kept_vertices", e.only \/ Points(e.q) = (IF e.op = "cgroup" THEN Points(m) ELSE {m.x[j] : j \in {k \in DOMAIN m.x : m.vg[k] \in ToSet(e.sel)}})>>,
     <<"vertex_groups", VgFrom(e.q, LAMBDA p : VgAt(m, p))>> >>
\* Generators.
BoxLo(e) == [j \in DOMAIN e.shape |-> e.centre[j] - (e.dims[j] \div 2)]
Grid(e, idx) == [j \in DOMAIN e.shape |-> BoxLo(e)[j] + (idx[j] * e.dims[j]) \div (e.shape[j] - 1)]
Idxs(s) == IF Len(s) = 1 THEN {<<p>> : p \in 0..(s[1] - 1)}
           ELSE IF Len(s) = 2 THEN {<<p, q>> : p \in 0..(s[1] - 1), q \in 0..(s[2] - 1)}
           ELSE {<<p, q, r>> : p \in 0..(s[1] - 1), q \in 0..(s[2] - 1), r \in 0..(s[3] - 1)}
Prod(s) == FoldSeq(LAMBDA p, q : p * q, 1, s)
Fact(d) == CASE d = 1 -> 1 [] d = 2 -> 2 [] d = 3 -> 6
OnBox(q, lo, hi) == \A f \in Boundary(q) : \E j \in DOMAIN lo : \E w \in {lo[j], hi[j]} : \A v \in f : q.x[v + 1][j] = w
Gen(e) ==
  CASE e.kind = "block" ->
         Sane(e.q, TRUE) \o
         << <<"grid_points", Points(e.q) = {Grid(e, p) : p \in Idxs(e.shape)}>>,
            <<"cell_count", Len(e.q.cells) = Prod([j \in DOMAIN e.shape |-> e.shape[j] - 1])>>,
            <<"volume", Total(e.q) = Fact(Len(e.shape)) * Prod([j \in DOMAIN e.shape |-> e.dims[j]])>>,
            <<"boundary", OnBox(e.q, BoxLo(e), [j \in DOMAIN e.shape |-> BoxLo(e)[j] + e.dims[j]])>>,
            <<"groups", \A n \in DOMAIN e.q.cells : e.q.cells[n][2] = e.mat>> >>
    [] e.kind = "cyl" ->
         LET nr == e.shape[1] - 1 nf == e.shape[2] nl == (IF e.dims[5] = 0 \/ e.make2d THEN 0 ELSE e.shape[3] - 1)
             d3 == nl > 0
         IN Sane(e.q, d3 \/ e.make2d) \o
         << <<"cell_count", Len(e.q.cells) = nr * nf * MaxI(nl, 1)>>,
            <<"vertex_count", Len(e.q.x) = (nr + 1) * (IF e.open THEN nf + 1 ELSE nf) * (nl + 1)>>,
            <<"boundary", Cardinality(Boundary(e.q)) =
                (IF d3 THEN (2 * nf * nl) + (2 * nr * nf) + (IF e.open THEN 2 * nr * nl ELSE 0)
                 ELSE (2 * nf) + (IF e.open THEN 2 * nr ELSE 0))>>,
            <<"on_surface", \A n \in DOMAIN e.q.x : e.rad[n] = 0>> >>
    [] e.kind = "ext" ->
         LET lo == [j \in 1..3 |-> e.slo[j]] hi == [j \in 1..3 |-> e.shi[j]]
             bs == [j \in 1..3 |-> e.b_shape[j] - 1] k == e.e_shape - 1
             g(n) == Cardinality({c \in DOMAIN e.q.cells : e.q.cells[c][2] = n})
         IN Sane(e.q, TRUE) \o
         << <<"boundary", OnBox(e.q, lo, hi)>>,
            <<"groups", g(0) = Prod(bs) /\ g(10) = k * bs[2] * bs[3] /\ g(11) = g(10) /\ g(20) = k * bs[1] * bs[3] /\ g(21) = g(20)
                        /\ g(30) = k * bs[1] * bs[2] /\ g(31) = g(30) /\ Len(e.q.cells) = g(0) + 2 * (g(10) + g(20) + g(30))>> >>
    [] e.kind = "vox" ->
         Sane(e.q, TRUE) \o
         << <<"voxels", (e.etype = "q") => {{e.q.x[v + 1] : v \in ToSet(e.q.cells[n][3])} : n \in DOMAIN e.q.cells} = {ToSet(e.boxes[b]) : b \in DOMAIN e.boxes}>>,
            <<"used", NoUnused(e.q) /\ Points(e.q) = UNION {ToSet(e.boxes[b]) : b \in DOMAIN e.boxes}>>,
            <<"volume", Total(e.q) = Fact(e.q.dim) * Prod(e.dims) * Len(e.boxes)>>,
            <<"cell_count", Len(e.q.cells) = Len(e.boxes) * (IF e.etype = "q" THEN 1 ELSE IF e.q.dim = 2 THEN 2 ELSE 6)>>,
            <<"boundary", Cardinality(Boundary(e.q)) = (IF e.etype = "t" /\ e.q.dim = 3 THEN 2 ELSE 1) * e.nbf>> >>
Unsorted(m) == m.cells[1][1] = "1_2" /\ \E j \in 1..(Len(m.x) - 1) : m.x[j][1] > m.x[j + 1][1]
RefOk(m) == Kind(m) /\ m.cells[1][1] # "3_6"
Clauses(k, j) ==
  LET e == Trace[k].ev[j] IN
  IF e.op = "gen" THEN Gen(e)
  ELSE LET m == Pre(k, j) IN
  CASE e.op = "refine" -> (IF ~e.ok THEN << <<"refused", ~RefOk(m) \/ Unsorted(m)>> >>
                           ELSE << <<"one_kind", RefOk(m)>> >> \o Refined(m, e.q) \o Groups(e))
    [] e.op = "hang" ->
         IF ~e.ok THEN << <<"refused", Busy(m, SetOf(e.s0), {n + 1 : n \in ToSet(e.ref)})>> >>
         ELSE << <<"refused", ~Busy(m, SetOf(e.s0), {n + 1 : n \in ToSet(e.ref)})>> >> \o
              Hanging(m, e.q, [n \in DOMAIN e.ch |-> e.ch[n] + 1], {n + 1 : n \in ToSet(e.ref)}, SetOf(e.s0), SetOf(e.s1), SetOf(e.es1)) \o Groups(e)
    [] e.op = "add" ->
         IF ~e.ok THEN << <<"refused", ~Kind(m)>> >>
         ELSE << <<"one_kind", Kind(m)>>, <<"union", ByPos(e.q) = ByPos(m) \o ByPos(e.o)>>,
                 <<"no_double_vertices", DistinctPts(e.q)>>, <<"all_vertices", Points(e.q) = Points(m) \cup Points(e.o)>>,
                 <<"vertex_groups", VgFrom(e.q, LAMBDA p : IF p \in Points(m) THEN VgAt(m, p) ELSE VgAt(e.o, p))>> >>
    [] e.op = "tile" ->
         IF ~e.ok THEN << <<"refused", ~Kind(m)>> >>
         ELSE LET sp == [ax \in DOMAIN e.grid |-> Span(m, ax)]
                  D == {[ax \in DOMAIN e.grid |-> p[ax] * sp[ax]] : p \in Idxs(e.grid)}
                  ds == SetToSeq(D)
              IN << <<"one_kind", Kind(m)>>, <<"copies", SameBag(ByPos(e.q), FlattenSeq([n \in DOMAIN ds |-> Moved(ByPos(m), ds[n])]))>>,
                    <<"no_double_vertices", DistinctPts(e.q)>>, <<"no_free", NoUnused(e.q)>>, <<"map_optional", e.same>>,
                    <<"node_map", Len(e.ndmap) = Len(e.q.x) /\ \A n \in DOMAIN e.q.x : e.ndmap[n] \in 0..(Len(m.x) - 1)
                        /\ \E d \in D : e.q.x[n] = Shift(m.x[e.ndmap[n] + 1], d) /\ e.q.vg[n] = m.vg[e.ndmap[n] + 1]>> >>
    [] e.op = "extrude" ->
         IF ~e.ok THEN << <<"extruded", FALSE>> >>
         ELSE Layers(m, e, e.nz, FALSE) \o << <<"volume", Total(e.q) = Prism(m, e.dz * e.nz)>>,
                <<"layer_points", Points(e.q) = {<<p[1], p[2], h * e.dz>> : p \in Points(m), h \in 0..e.nz}>> >>
    [] e.op = "bend" -> (IF ~e.ok THEN << <<"extruded", FALSE>> >> ELSE Layers(m, e, e.nz, FALSE))
    [] e.op = "revolve" -> (IF ~e.ok THEN << <<"revolved", FALSE>> >> ELSE Layers(m, e, e.nz, e.closed))
    [] e.op = "mirror" ->
         IF ~e.ok THEN << <<"refused", \E n \in DOMAIN m.cells : m.cells[n][1] = "3_6">> >>
         ELSE LET R(p) == [ax \in DOMAIN p |-> IF ax = e.axis + 1 THEN (2 * e.p) - p[ax] ELSE p[ax]]
                  img == [n \in DOMAIN m.cells |-> <<ByPos(m)[n][1], ByPos(m)[n][2], [j1 \in DOMAIN ByPos(m)[n][3] |-> R(ByPos(m)[n][3][j1])]>>]
              IN Sane(e.q, TRUE) \o << <<"halves", SameBag(Shapes(ByPos(e.q)), Shapes(ByPos(m) \o img))>>,
                    <<"volume", Total(e.q) = 2 * Total(m)>>,
                    <<"all_vertices", Points(e.q) = Points(m) \cup {R(p) : p \in Points(m)}>>,
                    <<"vertex_groups", VgFrom(e.q, LAMBDA p : VgAt(m, p) \cup VgAt(m, R(p)))>> >>
    [] e.op = "tri" ->
         IF ~e.ok THEN << <<"triangulated", FALSE>> >>
         ELSE IF m.cells[1][1] \notin {"2_4", "3_8"} THEN << <<"unchanged", e.q = m>> >>
         ELSE LET n == (IF m.dim = 2 THEN 2 ELSE 6) IN
              Sane(e.q, TRUE) \o << <<"volume", Len(e.q.cells) = n * Len(m.cells) /\ \A c \in DOMAIN m.cells :
                     FoldSet(LAMBDA s, a : a + Vol(e.q, e.q.cells[(n * (c - 1)) + s]), 0, 1..n) = Vol(m, m.cells[c])>>,
                   <<"child_inside", e.q.x = m.x /\ e.q.vg = m.vg /\ \A c \in DOMAIN e.q.cells :
                       LET p == m.cells[((c - 1) \div n) + 1] IN e.q.cells[c][2] = p[2] /\ ToSet(e.q.cells[c][3]) \subseteq ToSet(p[3])>>,
                   <<"boundary", Cardinality(Boundary(e.q)) = (IF m.dim = 2 THEN 1 ELSE 2) * Cardinality(Boundary(m))>> >>
    [] e.op = "cgroup" -> (IF ~e.ok THEN << <<"refused", Sel(m, LAMBDA c : m.cells[c][2] \in ToSet(e.sel)) = <<>> >> >>
                           ELSE Picked(m, e, Sel(m, LAMBDA c : m.cells[c][2] \in ToSet(e.sel))))
    [] e.op = "ngroup" ->
         LET cs == Sel(m, LAMBDA c : \A v \in ToSet(m.cells[c][3]) : m.vg[v + 1] \in ToSet(e.sel)) IN
         (IF ~e.ok THEN << <<"refused", cs = <<>> >> >> ELSE Picked(m, e, cs))
    [] e.op = "merge" ->
         (IF ~e.ok THEN << <<"merged", FALSE>> >> ELSE
          << <<"vertices_valid", InRange(e.q)>>, <<"no_double_vertices", DistinctPts(e.q)>>,
             <<"same_cells", InRange(e.q) => ByPos(e.q) = ByPos(m)>>, <<"no_free", NoUnused(e.q)>>,
             <<"vertex_groups", VgFrom(e.q, LAMBDA p : VgAt(m, p))>> >>)
TInit == t \in 1..NT /\ i = 1
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, i)))
         /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i>>
===========================================================================
