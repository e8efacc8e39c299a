--------------------------- MODULE AssemblyMC ---------------------------
(* The assembling as a process: the pattern of the matrix is collected     *)
(* from chunks of cells, then contributions of cells of terms are          *)
(* scattered in any order; the conditions may change and the matrix may be *)
(* reused.  Whatever the order, the result is that of Assembly.tla and all *)
(* the items needed were allocated.  Two variables on two or three line    *)
(* cells, a term on a part of the region, coupling in both directions.     *)
EXTENDS Assembly, TLC, Json, Sequences
CONSTANTS NCell, Chunk, Rounds
VARIABLES cond, graph, todo, mtx, vec, round, ph, hist
vars == <<cond, graph, todo, mtx, vec, round, ph, hist>>
Line(cs) == [k \in 1..Len(cs) |-> <<cs[k], cs[k] + 1>>]
P0(cs) == [k \in 1..Len(cs) |-> <<cs[k]>>]
All == [k \in 1..NCell |-> k - 1]
\* Variable 1 has vertex nodes, variable 2 one node per cell.
Terms == <<[tm |-> 1, v |-> 1, ss |-> <<1>>, coef |-> 2, conn |-> <<Line(All), P0(All)>>],
           [tm |-> 2, v |-> 1, ss |-> <<1, 2>>, coef |-> -1, conn |-> <<Line(<<NCell - 1>>), P0(<<NCell - 1>>)>>],
           [tm |-> 3, v |-> 2, ss |-> <<1, 2>>, coef |-> 1, conn |-> <<Line(All), P0(All)>>]>>
NN == NCell + 1
\* Conditions: none, first DOF prescribed, both ends, periodic.
Count(f) == Cardinality({f[k] : k \in DOMAIN f} \ {-1})
Eq1 == [none |-> [k \in 1..NN |-> k - 1], one |-> [k \in 1..NN |-> k - 2],
        both |-> [k \in 1..NN |-> IF k = NN THEN -1 ELSE k - 2],
        per |-> [k \in 1..NN |-> IF k = NN THEN 0 ELSE k - 1]]
Eq2 == [none |-> [k \in 1..NCell |-> k - 1], one |-> [k \in 1..NCell |-> k - 2]]
System(c) == <<[nc |-> 1, off |-> 0, n |-> Count(Eq1[c[1]]), eq |-> Eq1[c[1]]],
               [nc |-> 1, off |-> Count(Eq1[c[1]]), n |-> Count(Eq2[c[2]]), eq |-> Eq2[c[2]]]>>
Conds == (DOMAIN Eq1) \X (DOMAIN Eq2)
Rows(c) == 0..(Count(Eq1[c[1]]) + Count(Eq2[c[2]]) - 1)
Work == UNION {{<<k, x>> : x \in 0..(NCells(Terms[k], 1) - 1)} : k \in 1..3}
Zero(c) == [x \in Rows(c) \X Rows(c) |-> 0]
\* Items of a set of cells of a term.
Pattern(S, k, xs) == LET T == Terms[k] IN
  {p \in UNION {{<<Row(S, T, T.v, x, r), Row(S, T, T.ss[q], x, m)>> : r \in 0..(NLoc(S, T, T.v, x) - 1), m \in 0..(NLoc(S, T, T.ss[q], x) - 1)} :
                <<x, q>> \in xs \X (DOMAIN T.ss)} : p[1] >= 0 /\ p[2] >= 0}
Init == /\ cond \in Conds /\ graph = {} /\ todo = Work /\ mtx = Zero(cond)
        /\ vec = [x \in Rows(cond) |-> 0] /\ round = 1 /\ ph = "graph" /\ hist = <<>>
\* Cells come in chunks of consecutive cells of a term.
Collect ==
  /\ ph = "graph"
  /\ IF todo = {} THEN ph' = "asm" /\ todo' = Work /\ UNCHANGED graph
     ELSE \E k \in {x[1] : x \in todo} :
            LET xs == {x[2] : x \in {y \in todo : y[1] = k}}
                lo == CHOOSE x \in xs : \A y \in xs : x <= y
                now == {x \in xs : x < lo + Chunk}
            IN /\ graph' = graph \cup Pattern(System(cond), k, now)
               /\ todo' = todo \ {<<k, x>> : x \in now} /\ UNCHANGED ph
  /\ UNCHANGED <<cond, mtx, vec, round, hist>>
Scatter ==
  /\ ph = "asm"
  /\ \E w \in todo : LET S == System(cond)
         T == Terms[w[1]]
         x == w[2]
         L == 0..(NLoc(S, T, T.v, x) - 1)
     IN /\ vec' = [i \in Rows(cond) |-> vec[i] + T.coef * Sum({<<F(FALSE, T.tm, x, r), r>> : r \in {r \in L : Row(S, T, T.v, x, r) = i}})]
        /\ mtx' = [p \in DOMAIN mtx |-> mtx[p] + T.coef * Sum({<<K(FALSE, T.tm, T.ss[z[1]], x, z[2], z[3]), z>> : z \in
             {z \in (DOMAIN T.ss) \X L \X (0..1) : z[3] < NLoc(S, T, T.ss[z[1]], x) /\ Row(S, T, T.v, x, z[2]) = p[1] /\ Row(S, T, T.ss[z[1]], x, z[3]) = p[2]}})]
        /\ todo' = todo \ {w}
  /\ UNCHANGED <<cond, graph, round, ph, hist>>
\* The matrix is zeroed and assembled again, or the conditions change.
Again ==
  /\ ph = "asm" /\ todo = {} /\ round < Rounds /\ round' = round + 1 /\ todo' = Work
  /\ \/ cond' = cond /\ mtx' = Zero(cond) /\ UNCHANGED <<graph, ph>>
     \/ \E c \in Conds \ {cond} : cond' = c /\ mtx' = Zero(c) /\ graph' = {} /\ ph' = "graph"
  /\ vec' = [x \in Rows(cond') |-> 0] /\ UNCHANGED hist
Spec == Init /\ [][Collect \/ Scatter \/ Again]_vars
Done == ph = "asm" /\ todo = {}
Sound == Done => /\ \A i \in Rows(cond) : vec[i] = Vec(System(cond), Terms, i, FALSE)
                 /\ \A p \in DOMAIN mtx : mtx[p] = Item(System(cond), Terms, p[1], p[2], FALSE)
Allocated == \A p \in DOMAIN mtx : mtx[p] # 0 => p \in graph
W(s, j) == j * j + 1
RowsAgree == Done => \A i \in Rows(cond) :
  /\ RowSum(System(cond), Terms, i, FALSE, W) = Sum({<<mtx[<<i, j>>] * W(1, j), j>> : j \in Rows(cond)})
  /\ {p[2] : p \in {p \in graph : p[1] = i}} = Cols(System(cond), Terms, i)

\* Random histories of calls.
Ops == <<"res", "res", "mtx", "mtx", "mtx", "resblk", "resterm", "ressel", "mtxblk", "mtxterm", "mtxsel", "bc", "bc", "graph">>
SX(x) == x \ {-Len(hist)}
SimInit == hist = <<>> /\ cond = 0 /\ graph = 0 /\ todo = 0 /\ mtx = 0 /\ vec = 0 /\ round = 0 /\ ph = 0
SimNext ==
  /\ Len(hist) < 8
  /\ \E k \in {RandomElement(SX(1..Len(Ops)))} : \E w \in {RandomElement(SX(0..15))} : hist' = Append(hist, [op |-> Ops[k], w |-> w])
  /\ UNCHANGED <<cond, graph, todo, mtx, vec, round, ph>>
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) = 8 => PrintT(<<"@beh", ToJson(hist)>>)
=========================================================================
