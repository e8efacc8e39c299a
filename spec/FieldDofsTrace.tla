-------------------------- MODULE FieldDofsTrace --------------------------
(* Fields of the real code against FieldDofs.                              *)
EXTENDS FieldDofs, TraceLib
VARIABLES t, i
\* The field event in force at the event j.
Fld(k, j) == Trace[k].ev[CHOOSE m \in 1..j : /\ Trace[k].ev[m].op = "field"
                                            /\ \A n \in (m + 1)..j : Trace[k].ev[n].op # "field"]
\* Identities of nodes (cells are numbered from 1).
NodeId(e, c, n) ==
  LET conn == e.cells[c] IN
  IF e.zero THEN <<c, {<<0, 0>>}>>
  ELSE IF e.disc THEN <<c, {<<n, 0>>}>>
  ELSE IF e.hier THEN LET S == {conn[v + 1] : v \in Rng(e.ents[n][1])}
                      IN <<IF Cardinality(S) = Len(conn) THEN c ELSE 0, {<<v, e.ents[n][2]>> : v \in S}>>
  ELSE IF e.nc[n] = <<>> THEN <<c, {<<0, n>>}>>
  ELSE Id(e.desc, e.k, conn, c, e.nc[n])
Pairs(e) == {<<NodeId(e, c, n), e.econn[c][n]>> : c \in DOMAIN e.cells, n \in DOMAIN e.econn[1]}
Places(P) == {p[1] : p \in P}
DofsOf(P) == {p[2] : p \in P}
\* All lattice nodes are there (serendipity: those on edges only).
Complete(e) == (e.hier \/ e.zero \/ e.seren) \/ ({e.nc[n] : n \in DOMAIN e.nc} \ {<<>>} = Lattice(e.desc, e.k) /\ Len(e.nc) = Cardinality(Lattice(e.desc, e.k)) + (IF e.bubble THEN 1 ELSE 0))
SerOk(e) == e.seren => {e.nc[n] : n \in DOMAIN e.nc} = {x \in Lattice(e.desc, e.k) : Cardinality({a \in DOMAIN x : x[a] \notin {0, e.k}}) <= 1}
Coor(e, c, n) == LET ws == [j \in DOMAIN e.cells[c] |-> e.fscale * W(e.desc, e.k, e.nc[n], j)]
                 IN [a \in DOMAIN e.mesh[1] |-> SumTo([j \in DOMAIN ws |-> ws[j] * e.mesh[e.cells[c][j] + 1][a]], Len(ws))]
CoorsOk(e) == e.coors = <<>> \/ e.zero \/ \A c \in DOMAIN e.cells, n \in DOMAIN e.econn[1] :
                 IF e.hier THEN Cardinality(Rng(e.ents[n][1])) = 1 =>
                         \A a \in DOMAIN e.mesh[1] : e.coors[e.econn[c][n] + 1][a] = ProdTo([q \in 1..(IF Simplex(e.desc) THEN 1 ELSE Dim(e.desc)) |-> e.k], IF Simplex(e.desc) THEN 1 ELSE Dim(e.desc)) * e.mesh[e.cells[c][e.ents[n][1][1] + 1] + 1][a]
                 ELSE e.nc[n] = <<>> \/ \A a \in DOMAIN e.mesh[1] : Abs(e.coors[e.econn[c][n] + 1][a] - Coor(e, c, n)[a]) <= (IF e.fscale > 1 THEN 1 ELSE 0)
RegionDofs(e, r) == LET P == Pairs(e)
                        E == {Rng(x) : x \in Rng(r.ents)}
                    IN {p[2] : p \in {q \in P : IF q[1][1] # 0 THEN q[1][1] \in Rng(r.cells) ELSE {v[1] : v \in q[1][2]} \in E}}
Maps(p) == {<<v[1], v[2]>> : v \in Rng(p.vals)}
ValOf(p, d) == IF \E v \in Rng(p.vals) : v[1] = d THEN (CHOOSE v \in Rng(p.vals) : v[1] = d)[2] ELSE 0
SameVals(p, q) == \A d \in {v[1] : v \in Rng(p.vals)} \cup {v[1] : v \in Rng(q.vals)} : Abs(ValOf(p, d) - ValOf(q, d)) <= 20
\* Sorted sequences of pairs are compared as sequences.
Cont(e) == \A a, b \in DOMAIN e.pts : (a < b /\ e.pts[a].id = e.pts[b].id) => SameVals(e.pts[a], e.pts[b])
Near(a, b, d) == Len(a) = Len(b) /\ \A n \in DOMAIN a : Abs(a[n] - b[n]) <= d
Clauses(k, j) ==
  LET e == Ev(k, j)
  IN CASE e.op = "field" -> LET P == Pairs(e) IN
            << <<"shared_iff_same_place", Cardinality(P) = Cardinality(Places(P)) /\ Cardinality(P) = Cardinality(DofsOf(P))>>,
               <<"dofs_contiguous", DofsOf(P) = 0..(e.nnod - 1)>>,
               <<"all_nodes", Complete(e) /\ SerOk(e)>>,
               <<"vertex_dofs_first", (e.zero \/ e.disc) \/ (e.nv = Len(e.verts) /\ \A p \in P : (p[2] < e.nv \/ (p[1][1] = 0 /\ Cardinality(Verts(p[1])) = 1)) => (p[2] < e.nv /\ Verts(p[1]) = {e.verts[p[2] + 1]}))>>,
               <<"node_coordinates", CoorsOk(e)>> >>
       [] e.op = "region" -> << <<"region_dofs", Rng(e.dofs) = RegionDofs(Fld(k, j), e)>>, <<"region_dofs_once", NoDup(e.dofs)>>, <<"parts_merged", e.parts>> >>
       [] e.op = "setdofs" -> << <<"set_dofs_nodes", e.nods = e.dofs>>, <<"set_dofs_values", Len(e.vals) = Len(e.want) /\ \A n \in DOMAIN e.vals : Near(e.vals[n], e.want[n], 1)>> >>
       [] e.op = "poly" -> << <<"polynomials_reproduced", Near(e.got, e.want, 2)>>, <<"gradients_reproduced", Near(e.ggot, e.gwant, 2)>> >>
       [] e.op = "surf" -> LET P == Pairs(Fld(k, j)) IN
            << <<"facet_dofs", \A f \in DOMAIN e.rows : /\ NoDup(e.rows[f])
                     /\ Rng(e.rows[f]) = {p[2] : p \in {q \in P : q[1][1] = 0 /\ Verts(q[1]) \subseteq Rng(e.facets[f])}}>>,
               <<"facet_vertices", \A f \in DOMAIN e.rows : \A n \in DOMAIN e.facets[f] :
                     \E p \in P : p[2] = e.rows[f][n] /\ Verts(p[1]) = {e.facets[f][n]}>> >>
       [] e.op = "sub" -> << <<"part_connectivity", e.cgot = e.cwant>>, <<"part_mapping", Near(e.got, e.want, 1)>> >>
       [] e.op = "cont" -> << <<"continuous", Cont(e)>>,
               <<"partition_of_unity", e.unity => \A a \in DOMAIN e.pts : Abs(SumSeq([m \in DOMAIN e.pts[a].vals |-> e.pts[a].vals[m][2]]) - 1000000) <= 60>> >>
       [] e.op = "hang" -> << <<"unused_exact", Rng(e.unused) = Rng(e.all) \ Rng(e.used)>>, <<"no_new_dofs", Rng(e.used) \subseteq Rng(e.all)>> >>
       [] OTHER -> << >>
TInit == t \in 1..NT /\ i = 1
TNext == i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, i))) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i>>
=============================================================================
