---------------------------- MODULE RegionTrace ----------------------------
(* Conformance of recorded region constructions with Region.              *)
EXTENDS Region, MeshRef, TraceLib
VARIABLES t, i, regs
vars == <<t, i, regs>>

M(tt) == Trace[tt].mesh

\* Event -> region value demanded by the specification, with any choice of
\* the vertex picked by "vertex in r.X".
Picks(e, rg) ==
  LET vo == {e.toks[k].l.name : k \in {j \in DOMAIN e.toks :
                 e.toks[j].t = "leaf" /\ e.toks[j].l.k = "vof"}}
      ok == {n \in vo : n \in DOMAIN rg}
      vs == UNION {rg[n].ent[0] : n \in ok} IN
  IF vs = {} THEN {0} ELSE vs
WithPick(toks, p) ==
  [k \in DOMAIN toks |-> IF toks[k].t = "leaf" /\ toks[k].l.k = "vof"
                         THEN [toks[k] EXCEPT !.l.pick = p] ELSE toks[k]]
HasPick(e) == \E k \in DOMAIN e.toks : e.toks[k].t = "leaf" /\ e.toks[k].l.k = "vof"

Same(m, R, e) == e.ok /\ ~R.err /\ e.r.kind = R.kind
                 /\ \A d \in Dims(m) : Rng(e.r.ent[d + 1]) = R.ent[d]
SameErr(R, e) == R.err /\ ~e.ok

\* The region as observed (used to go on after a mismatch).
Obs(m, e) == [kind |-> e.r.kind, known |-> Dims(m),
              ent |-> [d \in Dims(m) |-> Rng(e.r.ent[d + 1])],
              empty |-> FALSE, err |-> FALSE]
Demand(m, e, rg) ==
  IF e.op = "make"
  THEN \* Region.from_vertices/facets/cells
       LET R == Assign(m, New(m, e.kind), IF e.d = 3 THEN m.tdim
                                          ELSE IF e.d = 2 THEN m.tdim - 1 ELSE 0,
                       Rng(e.ids)) IN
       Full(m, R)
  ELSE IF e.parent # "" /\ e.parent \notin DOMAIN rg THEN Err
  ELSE IF HasPick(e)
  THEN LET S == {p \in Picks(e, rg) :
                 Same(m, Create(m, rg, WithPick(e.toks, p), e.kind, e.allow), e)} IN
       Create(m, rg, WithPick(e.toks, IF S # {} THEN CHOOSE p \in S : TRUE
                                      ELSE CHOOSE p \in Picks(e, rg) : TRUE),
              e.kind, e.allow)
  ELSE Create(m, rg, e.toks, e.kind, e.allow)

ParentCells(m, e, rg) == IF e.parent = "" THEN Ids(m, m.tdim)
                         ELSE rg[e.parent].ent[m.tdim]

\* Facet index pairs (cell, local facet) denote exactly the facets of R.
FacetIdx(m, R, P, fi) ==
  LET want == FacetCells(m, R, P)
      fd == m.tdim - 1
      \* facet id of a (cell, local facet) pair, by its vertices
      fac(p) == CellEnts(m.desc[p[1] + 1], m.tdim, m.ent[m.tdim][p[1] + 1],
                         fd)[p[2] + 1]
      got == {<<p[1], fac(p)>> : p \in Rng(fi)} IN
  /\ NoDup(fi)
  /\ got = {<<q[1], VertsOf(m, fd, q[2])>> : q \in want}

Clauses(m, e, rg) ==
  LET R == Demand(m, e, rg) IN
  IF R.err \/ ~e.ok
  THEN << <<"refusal differs", SameErr(R, e)>>,
          <<"other regions or the mesh changed", e.chg = <<>> >> >>
  ELSE <<
    <<"kind", e.r.kind = R.kind>>,
    <<"vertices", Rng(e.r.ent[1]) = R.ent[0]>>,
    <<"edges", m.tdim < 2 \/ Rng(e.r.ent[2]) = R.ent[1]>>,
    <<"faces", m.tdim < 3 \/ Rng(e.r.ent[3]) = R.ent[2]>>,
    <<"cells", Rng(e.r.ent[m.tdim + 1]) = R.ent[m.tdim]>>,
    <<"duplicate entities", \A d \in Dims(m) : NoDup(e.r.ent[d + 1])>>,
    <<"sorted entities", e.rawids \/ \A d \in Dims(m) : Sorted(e.r.ent[d + 1])>>,
    <<"entity dimensions inconsistent", e.op = "make" \/ Consistent(m, R)>>,
    <<"shape counts", e.shape = <<>> \/ \A d \in Dims(m) : e.shape[d + 1] = Cardinality(R.ent[d])>>,
    <<"characteristic function", Has(e, "chv") =>
         (e.chv = [k \in 1..m.nv |-> IF (k - 1) \in R.ent[0] THEN 1 ELSE 0]
          /\ e.chc = [k \in 1..Len(m.ent[m.tdim]) |->
                       IF (k - 1) \in R.ent[m.tdim] THEN 1 ELSE 0])>>,
    <<"facet indices", Has(e, "fi") => FacetIdx(m, R, ParentCells(m, e, rg), e.fi)>>,
    \* Refused only when the parent has no cell of the facets at all.
    <<"facet indices refused", Has(e, "fiexc") =>
         FacetCells(m, R, ParentCells(m, e, rg)) = {}>>,
    <<"incident cells", Has(e, "fc") =>
         Rng(e.fc) = {q[1] : q \in FacetCells(m, R, ParentCells(m, e, rg))}>>,
    <<"copy", Has(e, "cp") => \A d \in Dims(m) : Rng(e.cp[d + 1]) = R.ent[d]>>,
    <<"edge graph", Has(e, "eg") =>
         {<<{p[1], p[2]}, p[3]>> : p \in Rng(e.eg)} =
         {<<VertsOf(m, 1, x), x + 1>> : x \in R.ent[1]}>>,
    <<"other regions or the mesh changed", e.chg = <<>> >> >>

TInit == t \in 1..NT /\ i = 1 /\ regs = <<>>
TNext ==
  /\ i <= NEv(t)
  /\ LET e == Ev(t, i)
         m == M(t) IN
     /\ Report(t, i, Bad(Clauses(m, e, regs)))
     /\ regs' = IF e.ok /\ e.add THEN (e.name :> Obs(m, e)) @@ regs ELSE regs
  /\ i' = i + 1
  /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
=============================================================================
