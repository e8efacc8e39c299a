------------------------------ MODULE MeshFile ------------------------------
(* Meshes in memory and in files.  A mesh: dimension, vertices (integer    *)
(* coordinates, group), cells in the order of their numbering within each  *)
(* kind <<kind, group, vertices>>, kinds as strings "d_n", named vertex    *)
(* lists.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
KindDim(k) == CASE k = "1_2" -> 1 [] k \in {"2_3", "2_4"} -> 2 [] OTHER -> 3
OfKind(cells, k) == SelectSeq(cells, LAMBDA c : c[1] = k)
Kinds(cells) == {cells[j][1] : j \in DOMAIN cells}
Dims(cells) == {KindDim(k) : k \in Kinds(cells)}
Strip(cells) == [j \in DOMAIN cells |-> <<cells[j][1], cells[j][3]>>]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* The same cells up to the reordering by kind.
SameCells(a, b, groups) == LET f(c) == IF groups THEN c ELSE Strip(c) IN
  /\ Len(a) = Len(b) /\ Kinds(a) = Kinds(b)
  /\ \A k \in Kinds(a) : f(OfKind(a, k)) = f(OfKind(b, k))
GroupsSplit(cells) == \A a, b \in DOMAIN cells : cells[a][2] = cells[b][2] => cells[a][1] = cells[b][1]
\* What the formats keep: c, v - cell, vertex groups; bc - named vertex lists;
\* embed - points always in 3D; axes - trailing constant axes not kept;
\* one - a single kind of cells of the space dimension; block - a single    *)
(* kind; split - groups of cells only if no group has cells of more kinds. *)
Full == [c |-> TRUE, v |-> TRUE, bc |-> FALSE, embed |-> FALSE, axes |-> FALSE, one |-> FALSE, block |-> FALSE, split |-> FALSE,
         kinds |-> {"1_2", "2_3", "2_4", "3_4", "3_6", "3_8"}, dims |-> {1, 2, 3}]
NoGroups == [Full EXCEPT !.c = FALSE, !.v = FALSE]
Caps(f) ==
  CASE f \in {"vtk", "vtk-ascii", "vtk-binary", "vtu"} -> [Full EXCEPT !.axes = TRUE]
    [] f = "medit" -> Full
    [] f = "abaqus" -> [Full EXCEPT !.split = TRUE]
    [] f = "hdf5" -> [Full EXCEPT !.bc = TRUE]
    [] f = "hdf5-xdmf" -> [Full EXCEPT !.bc = TRUE, !.embed = TRUE, !.kinds = @ \ {"1_2", "3_6"}]
    [] f = "nastran" -> [Full EXCEPT !.embed = TRUE, !.dims = {2, 3}]
    [] f = "gmsh" -> [Full EXCEPT !.embed = TRUE, !.block = TRUE, !.dims = {2, 3}]
    [] f = "gmsh-dg" -> [NoGroups EXCEPT !.embed = TRUE, !.block = TRUE, !.dims = {2, 3}]
    [] f = "xyz" -> [NoGroups EXCEPT !.one = TRUE, !.axes = TRUE]
    [] f = "su2" -> [NoGroups EXCEPT !.dims = {2, 3}, !.one = TRUE]
    [] f = "netgen" -> NoGroups
Formats == {"vtk", "vtk-ascii", "vtk-binary", "vtu", "medit", "abaqus", "hdf5", "hdf5-xdmf", "nastran", "gmsh", "gmsh-dg", "xyz", "su2", "netgen"}
\* The last varying axis.
Varying(m) == {d \in 1..m.dim : \E v \in DOMAIN m.x : m.x[v][d] # m.x[1][d]}
ReadDim(cp, m) == IF cp.embed THEN 3 ELSE IF cp.axes THEN (IF Varying(m) = {} THEN 0 ELSE MaxOf(Varying(m))) ELSE m.dim
Expressible(cp, m, omit) ==
  LET ks == Kinds(m.cells) top == {k \in ks : KindDim(k) = ReadDim(cp, m)} IN
  /\ ks \subseteq cp.kinds /\ m.dim \in cp.dims
  /\ cp.axes => ReadDim(cp, m) = m.dim
  /\ cp.one => (Cardinality(ks) = 1 /\ Dims(m.cells) = {m.dim})
  /\ cp.block => Cardinality(ks) = 1
  /\ omit => top # {}
Coors(m, d) == [v \in DOMAIN m.x |-> [k \in 1..d |-> IF k <= m.dim THEN m.x[v][k] ELSE 0]]
\* What is read back after writing m; q - the mesh read.
Keeps(cp, m, q, omit, omits) ==
  LET cells == IF omit /\ omits THEN SelectSeq(m.cells, LAMBDA c : KindDim(c[1]) = ReadDim(cp, m)) ELSE m.cells IN
  << <<"dim", q.dim = ReadDim(cp, m)>>,
     <<"vertices", q.x = Coors(m, ReadDim(cp, m))>>,
     <<"vertex_groups", ~cp.v \/ q.vg = m.vg>>,
     <<"cells", SameCells(cells, q.cells, FALSE)>>,
     <<"cell_groups", ~cp.c \/ (cp.split /\ ~GroupsSplit(m.cells)) \/ SameCells(cells, q.cells, TRUE)>>,
     <<"nodal_bcs", ~cp.bc \/ q.bc = m.bc>> >>
\* An exact copy in memory.
CopyOf(m, q) == << <<"dim", q.dim = m.dim>>, <<"vertices", q.x = m.x>>, <<"vertex_groups", q.vg = m.vg>>,
                   <<"cells", SameCells(m.cells, q.cells, FALSE)>>, <<"cell_groups", SameCells(m.cells, q.cells, TRUE)>>,
                   <<"nodal_bcs", q.bc = m.bc>> >>
\* The cells sel (positions in the numbering num of the cells of the top
\* dimension, a sequence of cells) on their own.
Rank(S, v) == Cardinality({w \in S : w < v})
SubOf(m, q, num, sel, loc) ==
  LET cells == [j \in DOMAIN sel |-> num[sel[j] + 1]]
      vs == UNION {ToSet(cells[j][3]) : j \in DOMAIN cells}
      sv == SetToSortSeq(vs, LAMBDA a, b : a < b)
      ren(c) == <<c[1], c[2], [j \in DOMAIN c[3] |-> Rank(vs, c[3][j])]>>
      bcs == [j \in DOMAIN m.bc |-> <<m.bc[j][1], LET keep == SelectSeq(m.bc[j][2], LAMBDA v : v \in vs)
                                                   IN [r \in DOMAIN keep |-> Rank(vs, keep[r])]>>]
  IN IF ~loc THEN << <<"vertices", q.x = m.x /\ q.vg = m.vg>>, <<"cells", SameCells(cells, q.cells, TRUE)>>, <<"nodal_bcs", q.bc = m.bc>> >>
     ELSE << <<"vertices", q.x = [j \in DOMAIN sv |-> m.x[sv[j] + 1]] /\ q.vg = [j \in DOMAIN sv |-> m.vg[sv[j] + 1]]>>,
             <<"cells", SameCells([j \in DOMAIN cells |-> ren(cells[j])], q.cells, TRUE)>>, <<"nodal_bcs", q.bc = bcs>> >>
============================================================================
