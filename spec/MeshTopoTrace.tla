------------------------- MODULE MeshTopoTrace -------------------------
(* Conformance of recorded CMesh queries with MeshTopo.                   *)
EXTENDS MeshTopo, TraceLib
VARIABLES t, i, tab
vars == <<t, i, tab>>
M(tt) == Trace[tt].mesh

\* The table of all incidence relations, computed once per mesh.
Table(m) ==
  LET D == m.tdim
      ev == [d \in 0..D |-> [e \in EIds(m, d) |-> EV(m, d, e)]]
      cv == ev[D]
      vs == [v \in EIds(m, 0) |-> {c \in EIds(m, D) : v \in cv[c]}]
      up(S, d) == {f \in EIds(m, d) : S \subseteq ev[d][f]}
      dn(S, d) == {f \in EIds(m, d) : ev[d][f] \subseteq S} IN
  [ev |-> ev,
   inc |-> [a \in 0..D |-> [b \in 0..D |-> [e \in EIds(m, a) |->
     IF a = b
     THEN IF a = 0 THEN UNION {cv[c] : c \in vs[e]} \ {e}
          ELSE {f \in EIds(m, a) : f # e /\ ev[a][e] \cap ev[a][f] # {}}
     ELSE IF a > b THEN dn(ev[a][e], b) ELSE up(ev[a][e], b)]]]]

DistinctEnts(m, tb, d) ==
  /\ Cardinality({tb.ev[d][e] : e \in EIds(m, d)}) = NE(m, d)
  /\ {tb.ev[d][e] : e \in EIds(m, d)} = AllEnts(m, d)

\* D -> d lists the entities in the order of the reference element.
LocalOrder(m, tb, l, d) ==
  \A c \in 1..Len(l) :
    LET le == CellEnts(m.desc[c], m.tdim, m.cells[c], d) IN
    Len(l[c]) = Len(le)
    /\ \A k \in DOMAIN le : l[c][k] \in EIds(m, d) /\ tb.ev[d][l[c][k]] = le[k]
VertexLists(m, l, d) == l = (IF d = m.tdim THEN m.cells ELSE m.ent[d])

\* Triangular faces of wedges are listed as degenerate quadrilaterals, with
\* one vertex repeated.
Wedges(m) == \E c \in DOMAIN m.desc : m.desc[c] = "3_6"
MayRepeat(m, a, b) == {a, b} = {0, 2} /\ Wedges(m)

ConnOK(m, tb, cn) ==
  LET a == cn.a
      b == cn.b
      l == cn.l IN
  /\ Len(l) = NE(m, a)
  /\ \A k \in 1..Len(l) : (MayRepeat(m, a, b) \/ NoDup(l[k]))
                           /\ Rng(l[k]) = tb.inc[a][b][k - 1]
  /\ (a = m.tdim /\ 0 < b /\ b < a) => LocalOrder(m, tb, l, b)
  /\ (0 < a /\ b = 0) => VertexLists(m, l, a)
  \* Transposed relations are ordered.
  /\ a < b => \A k \in 1..Len(l) : Sorted(l[k])
Avail(e) == {<<e.av[k].a, e.av[k].b>> : k \in DOMAIN e.av}

\* Bits of the comparisons of the vertices in an oriented list.
PW(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8
           [] n = 4 -> 16 [] n = 5 -> 32
CmpKey(s) ==
  LET B(p, q, n) == IF s[p] < s[q] THEN PW(n) ELSE 0 IN
  CASE Len(s) = 2 -> B(1, 2, 0)
    [] Len(s) = 3 -> B(1, 2, 0) + B(1, 3, 1) + B(2, 3, 2)
    [] Len(s) = 4 -> B(1, 2, 0) + B(1, 3, 1) + B(2, 3, 2)
                     + B(1, 4, 3) + B(2, 4, 4) + B(3, 4, 5)
CellKeys(m, d, c) ==
  LET re == RefEnts(m.desc[c], m.tdim, d) IN
  [k \in DOMAIN re |->
     IF m.desc[c] = "3_6" /\ d = 2 /\ Len(re[k]) = 3 THEN -1
     ELSE CmpKey([j \in DOMAIN re[k] |-> m.cells[c][re[k][j] + 1]])]
RECURSIVE AllKeys(_, _, _)
AllKeys(m, d, c) == IF c > Len(m.cells) THEN <<>>
                    ELSE CellKeys(m, d, c) \o AllKeys(m, d, c + 1)

----------------------------------------------------------------------------
Coor(m, v) == m.crd[v + 1]
Dims(m) == Len(m.crd[1])
Cen12(m, vl) == [k \in 1..Dims(m) |->
   (12 * SumSeq([j \in 1..Len(vl) |-> Coor(m, vl[j])[k]])) \div Len(vl)]
VL(m, d, e) == IF d = 0 THEN <<e>> ELSE IF d = m.tdim THEN m.cells[e + 1]
               ELSE LET s == m.ent[d][e + 1]
                        S == Rng(s) IN
                    IF Cardinality(S) = Len(s) THEN s ELSE SetToSeq(S)
Dot(u, v) == SumSeq([k \in 1..Len(u) |-> u[k] * v[k]])
Sub(m, a, b) == [k \in 1..Dims(m) |-> Coor(m, b)[k] - Coor(m, a)[k]]
\* Squared (double) measure of lower-dimensional entities.
Cross2(u, v) == Dot(u, u) * Dot(v, v) - Dot(u, v) * Dot(u, v)
Meas(m, d, e) ==
  LET s == VL(m, d, e) IN
  IF d = m.tdim THEN CellVol(m.desc[e + 1], [k \in DOMAIN s |-> Coor(m, s[k])])
  ELSE IF d = 1 THEN Dot(Sub(m, s[1], s[2]), Sub(m, s[1], s[2]))
  ELSE IF Len(s) = 3 THEN Cross2(Sub(m, s[1], s[2]), Sub(m, s[1], s[3]))
  \* Parallelograms.
  ELSE 4 * Cross2(Sub(m, s[1], s[2]), Sub(m, s[1], s[4]))

\* n: 1000 times the unit outward normal of facet f of cell c.
NormalOK(m, n, f, c) ==
  LET s == VL(m, m.tdim - 1, f)
      cs == m.cells[c + 1]
      nn == Dot(n, n)
      out == Dot(n, [k \in 1..Dims(m) |->
                       Len(cs) * SumSeq([j \in DOMAIN s |-> Coor(m, s[j])[k]])
                       - Len(s) * SumSeq([j \in DOMAIN cs |-> Coor(m, cs[j])[k]])]) IN
  /\ Abs(nn - 1000000) < 3000
  /\ out > 0
  /\ \A j \in 2..Len(s) :
       LET v == Sub(m, s[1], s[j]) IN
       Abs(Dot(n, v)) <= SumSeq([k \in 1..Dims(m) |-> Abs(v[k])])
RECURSIVE FlatOff(_, _, _)
FlatOff(m, d, c) == IF c = 0 THEN 0
                    ELSE FlatOff(m, d, c - 1) + Len(RefEnts(m.desc[c], m.tdim, d))

----------------------------------------------------------------------------
SameCell(m, k) == \* Orientation fix-up may only permute the vertices.
  Rng(m.cells[k]) = Rng(m.orig[k]) /\ Len(m.cells[k]) = Len(m.orig[k])

\* Submeshes.
NewOK(m, tb, e) ==
  LET d == e.d
      src == [k \in DOMAIN e.ids |-> IF d = m.tdim THEN m.cells[e.ids[k] + 1]
                                     ELSE m.ent[d][e.ids[k] + 1]]
      used == UNION {Rng(src[k]) : k \in DOMAIN src}
      old == IF e.localize THEN SetToSortSeq(used, <) ELSE [v \in 1..m.nv |-> v - 1] IN
  << <<"submesh vertices", e.scrd = [k \in DOMAIN old |-> Coor(m, old[k])]>>,
     <<"submesh vertex groups", e.svg = [k \in DOMAIN old |-> m.vg[old[k] + 1]]>>,
     <<"submesh cells", Len(e.scells) = Len(src)
          /\ \A k \in DOMAIN src : Len(e.scells[k]) = Len(src[k])
             /\ \A j \in DOMAIN src[k] : e.scells[k][j] + 1 \in DOMAIN old
                                        /\ old[e.scells[k][j] + 1] = src[k][j]>>,
     <<"submesh cell groups", d < m.tdim
          \/ e.scg = [k \in DOMAIN e.ids |-> m.cg[e.ids[k] + 1]]>>,
     <<"submesh counts", e.snum = <<Len(old), Len(src)>> >>,
     <<"submesh connectivity", (Has(e, "sfac") /\ (d = m.tdim \/ ~Wedges(m))) =>
         \* Facets of the submesh, by the cells that share them.
         LET cellsof == {Rng(e.sfac[k]) : k \in DOMAIN e.sfac}
             fac == {s \in UNION {{tb.ev[d - 1][f] : f \in tb.inc[d][d - 1][e.ids[k]]}
                                  : k \in DOMAIN e.ids} : TRUE} IN
         /\ Len(e.sfac) = Cardinality(fac)
         /\ cellsof = {{k - 1 : k \in {q \in DOMAIN src : s \subseteq Rng(src[q])}}
                       : s \in fac}>> >>

OpClauses(m, tb, e) ==
  CASE e.op = "mesh" -> <<
      <<"cells changed", \A k \in DOMAIN m.cells : SameCell(m, k)>>,
      <<"cells of a positively oriented mesh reordered", e.oriented => m.cells = m.orig>>,
      <<"cells not positively oriented", \A c \in EIds(m, m.tdim) : Meas(m, m.tdim, c) > 0>>,
      <<"entities numbered once", \A d \in 1..(m.tdim - 1) : DistinctEnts(m, tb, d)>>,
      <<"entities listed as in their cell", \A d \in 1..(m.tdim - 1) : ListedAsLocal(m, d)>> >>
    [] e.op = "setup" -> << <<"requested connectivity missing", <<e.a, e.b>> \in Avail(e)>> >>
    [] e.op = "free" -> << <<"released connectivity kept", <<e.a, e.b>> \notin Avail(e)>> >>
    [] e.op = "graph" -> <<
      <<"graph", e.ones /\ e.shape = <<NE(m, e.a), NE(m, e.b)>> /\ Len(e.ptr) = NE(m, e.a) + 1
         /\ \A k \in 1..NE(m, e.a) :
              LET row == SubSeq(e.ind, e.ptr[k] + 1, e.ptr[k + 1]) IN
              Rng(row) = tb.inc[e.a][e.b][k - 1]
              /\ (MayRepeat(m, e.a, e.b) \/ NoDup(row))>> >>
    [] e.op = "inc" -> <<
      <<"incident entities", IF e.ids = <<>> THEN e.ind = <<>> ELSE
         Len(e.off) = Len(e.ids) + 1
         /\ e.off[1] = 0 /\ e.off[Len(e.off)] = Len(e.ind)
         /\ \A k \in DOMAIN e.ids :
              LET row == SubSeq(e.ind, e.off[k] + 1, e.off[k + 1]) IN
              (MayRepeat(m, e.a, e.b) \/ NoDup(row)) /\ Rng(row) = tb.inc[e.b][e.a][e.ids[k]]>>,
      <<"offsets option", e.same>>,
      <<"local numbers", Has(e, "loc") =>
         \A k \in DOMAIN e.ids : \A j \in (e.off[k] + 1)..e.off[k + 1] :
            IF e.a = m.tdim
            THEN LET le == CellEnts(m.desc[e.ind[j] + 1], m.tdim, m.cells[e.ind[j] + 1], e.b) IN
                 e.loc[j] + 1 \in DOMAIN le
                 /\ le[e.loc[j] + 1] = tb.ev[e.b][e.ids[k]]
            ELSE TRUE>> >>
    [] e.op = "complete" -> <<
      <<"complete entities", Sorted(e.out) /\ NoDup(e.out) /\
         Rng(e.out) = (IF e.ids = <<>> THEN {}
                       ELSE {x \in EIds(m, e.a) : tb.inc[e.a][e.b][x] \subseteq Rng(e.ids)})>> >>
    [] e.op = "surf" -> <<
      <<"surface facets", Sorted(e.out) /\ NoDup(e.out) /\
         Rng(e.out) = {f \in EIds(m, m.tdim - 1) :
                         Cardinality(tb.inc[m.tdim - 1][m.tdim][f]) = 1}>> >>
    [] e.op = "geom" -> <<
      <<"centroids", e.cen = [k \in 1..NE(m, e.d) |-> Cen12(m, VL(m, e.d, k - 1))]>>,
      <<"volumes", Has(e, "vol") =>
                   e.vol = [k \in 1..NE(m, e.d) |-> Meas(m, e.d, k - 1)]>> >>
    [] e.op = "ori" -> <<
      <<"orientations", LET ks == AllKeys(m, e.d, 1) IN
          Len(e.out) = Len(ks)
          /\ \A k \in DOMAIN ks : ks[k] = -1 \/ e.out[k] = ks[k]>> >>
    [] e.op = "normals" -> <<
      <<"facet normals", \A c \in EIds(m, m.tdim) :
          LET le == CellEnts(m.desc[c + 1], m.tdim, m.cells[c + 1], m.tdim - 1)
              o == FlatOff(m, m.tdim - 1, c) IN
          \A k \in DOMAIN le :
            LET f == CHOOSE f \in EIds(m, m.tdim - 1) : tb.ev[m.tdim - 1][f] = le[k] IN
            \* A triangular face has no second triangle.
            \/ e.which = 1 /\ m.desc[c + 1] = "3_6" /\ Cardinality(le[k]) = 3
            \/ NormalOK(m, e.out[o + k], f, c)>> >>
    [] e.op = "new" -> NewOK(m, tb, e)

Common(m, tb, e) ==
  IF ~Has(e, "av") THEN <<>> ELSE
  << <<"connectivity contents", \A k \in DOMAIN e.av : ConnOK(m, tb, e.av[k])>>,
     <<"cell connectivity lost", <<m.tdim, 0>> \in Avail(e)>>,
     <<"entity counts", e.num[1] = m.nv /\ e.num[m.tdim + 1] = Len(m.cells)
         /\ \A d \in 1..(m.tdim - 1) :
              e.num[d + 1] = (IF <<d, 0>> \in Avail(e) THEN NE(m, d) ELSE 0)>> >>

TInit == t \in 1..NT /\ i = 1 /\ tab = Table(M(t))
TNext == /\ i <= NEv(t)
         /\ Report(t, i, Bad(OpClauses(M(t), tab, Ev(t, i)) \o Common(M(t), tab, Ev(t, i))))
         /\ i' = i + 1
         /\ UNCHANGED <<t, tab>>
TSpec == TInit /\ [][TNext]_vars
=========================================================================
