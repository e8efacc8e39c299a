-------------------------- MODULE PartitionTrace --------------------------
(* Recorded distributions compared with Partition.tla.                     *)
EXTENDS Partition, TraceLib
VARIABLES t, i
C(tt) == Trace[tt].c
\* The connectivity of field f, of equations when expanded.
Expand(row, nc) == [k \in 1..(Len(row) * nc) |-> row[((k - 1) \div nc) + 1] * nc + ((k - 1) % nc)]
Conn(tt, f, ex) == LET F == C(tt).fields[f] IN IF ex THEN [c \in DOMAIN F.conn |-> Expand(F.conn[c], F.nc)] ELSE F.conn
NDof(tt, f, ex) == C(tt).fields[f].n * (IF ex THEN C(tt).fields[f].nc ELSE 1)
Facets(tt) == [c \in DOMAIN C(tt).facets |-> {Rng(C(tt).facets[c][k]) : k \in DOMAIN C(tt).facets[c]}]
PartClauses(tt, e) ==
  <<<<"one task of each cell", Len(e.asg) = Len(C(tt).facets)>>,
    <<"tasks in range", \A c \in DOMAIN e.asg : e.asg[c] \in 0..(e.n - 1)>>,
    <<"no empty tasks", e.metis \/ Tasks(e.asg) = 0..(e.n - 1)>>>>
\* pairs: <<a, b, facets as vertex sets>>.
FacetClauses(tt, e) ==
  LET asg == e.asg
      FS == Facets(tt)
      Want(a, b) == UNION {FS[c] : c \in CellsOf(asg, a)} \cap UNION {FS[c] : c \in CellsOf(asg, b)}
      Got(a, b) == UNION {{Rng(e.pairs[k][3][m]) : m \in DOMAIN e.pairs[k][3]} : k \in {k \in DOMAIN e.pairs : e.pairs[k][1] = a /\ e.pairs[k][2] = b}}
      T == Tasks(asg)
  IN <<<<"interfaces", \A a, b \in T : a = b \/ Got(a, b) = Want(a, b)>>,
       <<"facets once", \A k \in DOMAIN e.pairs : NoDup([m \in DOMAIN e.pairs[k][3] |-> Rng(e.pairs[k][3][m])]) >>,
       <<"pairs of tasks", \A k \in DOMAIN e.pairs : e.pairs[k][1] # e.pairs[k][2] /\ {e.pairs[k][1], e.pairs[k][2]} \subseteq T>>>>
MapsClauses(tt, e) ==
  LET asg == e.asg
      conn == Conn(tt, e.f, e.expand)
      N == NDof(tt, e.f, e.expand)
      T == Tasks(asg)
      n == Cardinality(T)
      ok == e.tasks = [k \in 1..n |-> k - 1] /\ Len(e.parts) = n /\ Len(e.over) = n
      owned == [a \in T |-> Rng(e.owned[a + 1])]
      over == [a \in T |-> {x + 1 : x \in Rng(e.over[a + 1])}]
  IN IF ~ok THEN <<<<"tasks", FALSE>>>>
     ELSE <<<<"cells of tasks", \A a \in T : NoDup(e.parts[a + 1]) /\ {x + 1 : x \in Rng(e.parts[a + 1])} = CellsOf(asg, a)>>,
            <<"one owner", OneOwner(owned, 0..(N - 1)) /\ \A a \in T : NoDup(e.owned[a + 1])>>,
            <<"owned DOFs are in cells of the task", OwnDofs(asg, conn, owned)>>,
            <<"inner DOFs", \A a \in T : Inner(asg, conn, a) \subseteq owned[a]>>,
            <<"counts", \A a \in T : e.n[a + 1] = Len(e.owned[a + 1]) /\ e.off[a + 1] = Before(e.n, a + 1)>>,
            <<"numbers", Len(e.ids) = N /\ Rng(e.ids) = 0..(N - 1)
               /\ \A a \in T : \A d \in owned[a] : d >= N \/ (e.ids[d + 1] >= e.off[a + 1] /\ e.ids[d + 1] < e.off[a + 1] + e.n[a + 1])>>,
            <<"overlap cells", IF e.overlap THEN Enough(asg, conn, owned, over) ELSE \A a \in T : over[a] = {}>>,
            <<"verification", \A a \in T : \A d \in owned[a] : d >= N \/ e.vec[d + 1] = a>>>>
\* ids[f]: the number of each DOF; cells, range, conn, of ranks and fields.
AsmClauses(tt, e) ==
  LET asg == e.asg
      NF == Len(e.fields)
      conn == [f \in 1..NF |-> Conn(tt, e.fields[f], e.expand)]
      N == [f \in 1..NF |-> NDof(tt, e.fields[f], e.expand)]
      Tot == SumSeq(N)
      n == e.size
      \* The owner of a DOF by ranges.
      Low == [r \in 1..n |-> e.range[r][1][1]]
      sized == Len(e.rhs) = Tot /\ \A f \in 1..NF : Len(e.ids[f]) = N[f]
      Inc == [f \in 1..NF |-> [d \in 0..(N[f] - 1) |-> {x \in {<<c, k>> : c \in DOMAIN conn[f], k \in DOMAIN conn[f][1]} : conn[f][x[1]][x[2]] = d}]]
      RhsW(f, d) == MapThenSumSet(LAMBDA x : Vec(f, x[1] - 1, x[2] - 1), Inc[f][d])
      CellW(f, c, k, W(_)) == SumSeq([g \in 1..NF |-> SumSeq([l \in 1..Len(conn[g][c]) |-> Mat(f, g, c - 1, k - 1, l - 1) * W(e.ids[g][conn[g][c][l] + 1])])])
      MtxW(f, d, W(_)) == MapThenSumSet(LAMBDA x : CellW(f, x[1], x[2], W), Inc[f][d])
      DofsIn(f, r) == {d \in 0..(N[f] - 1) : e.ids[f][d + 1] >= e.range[r][f][1] /\ e.ids[f][d + 1] < e.range[r][f][2]}
      Cells(r, f) == {x + 1 : x \in Rng(e.cells[r][f])}
  IN IF ~sized THEN <<<<"sizes", FALSE>>>>
     ELSE <<<<"global numbers", UNION {Rng(e.ids[f]) : f \in 1..NF} = 0..(Tot - 1)>>,
            <<"ranges", \A r \in 1..n : \A f \in 1..NF :
                e.range[r][f][1] = (IF f > 1 THEN e.range[r][f - 1][2] ELSE IF r > 1 THEN e.range[r - 1][NF][2] ELSE 0)
                /\ (r = n /\ f = NF => e.range[r][f][2] = Tot)>>,
            <<"owned DOFs", \A r \in 1..n : \A f \in 1..NF : DofsIn(f, r) \subseteq DofsOf(conn[f], CellsOf(asg, r - 1))
                /\ Cardinality(DofsIn(f, r)) = e.range[r][f][2] - e.range[r][f][1]>>,
            <<"local cells", \A r \in 1..n : \A f \in 1..NF : NoDup(e.cells[r][f]) /\
                IF e.overlap THEN CellsOf(asg, r - 1) \cup Around(conn[f], DofsIn(f, r)) \subseteq Cells(r, f) ELSE Cells(r, f) = CellsOf(asg, r - 1)>>,
            <<"local connectivity", \A r \in 1..n : \A f \in 1..NF : Len(e.conn[r][f]) = Len(e.cells[r][f]) /\
                \A k \in DOMAIN e.cells[r][f] : LET g == conn[f][e.cells[r][f][k] + 1] IN
                   /\ Len(e.conn[r][f][k]) = Len(g)
                   /\ \A l \in DOMAIN g : e.conn[r][f][k][l] = e.ids[f][g[l] + 1]>>,
            <<"vector sizes", \A r \in 1..n : e.sizes[r] = <<e.range[r][NF][2] - e.range[r][1][1], Tot>> /\ e.drange[r] = <<e.range[r][1][1], e.range[r][NF][2]>>>>,
            <<"assembled vector", \A f \in 1..NF : \A d \in 0..(N[f] - 1) : e.rhs[e.ids[f][d + 1] + 1] = RhsW(f, d)>>,
            <<"assembled matrix", \A f \in 1..NF : \A d \in 0..(N[f] - 1) :
                /\ e.m1[e.ids[f][d + 1] + 1] = MtxW(f, d, W1) /\ e.m2[e.ids[f][d + 1] + 1] = MtxW(f, d, W2)>>,
            <<"allocated items", e.alloc>>, <<"rows of others", e.foreign = 0>>>>
Clauses(tt, e) == CASE e.op = "part" -> PartClauses(tt, e)
                    [] e.op = "facets" -> FacetClauses(tt, e)
                    [] e.op = "maps" -> MapsClauses(tt, e)
                    [] OTHER -> AsmClauses(tt, e)
TInit == t \in 1..NT /\ i = 1
TNext == /\ i <= NEv(t)
         /\ Report(t, i, Bad(Clauses(t, Ev(t, i))))
         /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i>>
=========================================================================
