---------------------------- MODULE MatchingTrace ---------------------------
(* Pairs found by the real code against Matching.                           *)
EXTENDS Matching, TraceLib
VARIABLES t, i
Pairs(e) == {<<e.pairs[k][1], e.pairs[k][2]>> : k \in DOMAIN e.pairs}
Once(e) == Cardinality(Pairs(e)) = Len(e.pairs)
KindOf(e) == IF e.kind \in {"axis", "axis2"} THEN "dir" ELSE e.kind
Expected(e) == Match(e.P, e.Q, KindOf(e), e.d)
\* Permutations of rows: the k-th item of the second sequence.
PermOk(e) == IF \E p \in Rng(e.P) \cup Rng(e.Q) : Cardinality({k \in DOMAIN e.P : e.P[k] = p}) # Cardinality({k \in DOMAIN e.Q : e.Q[k] = p})
             THEN e.raised # ""
             ELSE /\ e.raised = "" /\ \A m \in Pairs(e) : e.P[m[1]] = e.Q[m[2]]
                  /\ {m[1] : m \in Pairs(e)} = DOMAIN e.P /\ {m[2] : m \in Pairs(e)} = DOMAIN e.Q
RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + Dot(a, b, n - 1)
Clauses(k, j) ==
  LET e == Ev(k, j)
  IN CASE e.op = "match" -> LET M == Expected(e) IN
            << <<"non_matching_refused", M = {} => e.raised # "">>, <<"matching_accepted", M # {} => e.raised = "">>,
               <<"images_paired", (M # {} /\ e.raised = "") => Pairs(e) = M /\ Once(e)>>, <<"arguments_kept", e.kept>> >>
       [] e.op = "perm" -> << <<"permutation_found", PermOk(e)>> >>
       [] e.op = "epbc" -> LET M == Match(e.P, e.Q, "dir", e.d) IN
            << <<"non_matching_refused", M = {} => e.raised # "">>, <<"matching_accepted", M # {} => e.raised = "">>,
               <<"periodic_dofs_paired", (M # {} /\ e.raised = "") =>
                   {<<p[1], p[2], p[3], p[4]>> : p \in Rng(e.pairs)} = {<<m[1], m[2], c, (c + e.shiftc) % e.nc>> : m \in M, c \in 0..(e.nc - 1)}
                   /\ Len(e.pairs) = e.nc * Cardinality(M)>> >>
       [] e.op = "mirror" -> LET M == Match(e.P, e.Q, "dir", e.d)
                                 Img == [a \in DOMAIN e.P |-> (CHOOSE m \in M : m[1] = a)[2]] IN
            << <<"non_matching_refused", M = {} => e.raised # "">>, <<"matching_accepted", M # {} => e.raised = "">>,
               <<"trace_couples_images", (M # {} /\ e.raised = "") => /\ e.rest
                   /\ \A a \in DOMAIN e.P, b \in DOMAIN e.P : Abs(e.T[a][Img[b]] - e.M[a][b]) <= 1>>,
               \* Values from the other side.
               <<"trace_values", (M # {} /\ e.raised = "") =>
                   \A a \in DOMAIN e.P : Abs(e.V[a] - Dot(e.M[a], [b \in DOMAIN e.P |-> e.vals[Img[b]]], Len(e.P))) <= 20 * Len(e.P)>> >>
       [] e.op = "dg" -> LET M == Match(e.P, e.Q, "dir", e.d) IN
            << <<"non_matching_refused", M = {} => e.raised # "">>, <<"matching_accepted", M # {} => e.raised = "">>,
               <<"periodic_facets_paired", (M # {} /\ e.raised = "") => Pairs(e) = M /\ {<<p[1], p[2]>> : p \in Rng(e.back)} = M>>,
               <<"neighbours_mutual", e.inner>> >>
       [] OTHER -> << >>
TInit == t \in 1..NT /\ i = 1
TNext == i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, i))) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i>>
=============================================================================
