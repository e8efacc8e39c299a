---------------------------- MODULE ObjFileTrace ----------------------------
(* Objects written and read by the real code against ObjFile.              *)
EXTENDS ObjFile, TraceLib
VARIABLES t, i, file, cache, descr
S(k) == Trace[k].scn
Heap(k) == S(k).heap
RECURSIVE Res(_, _)
\* Where the object restored at a path is stored.
Res(ents, q) == IF At(ents, q) # {} THEN LocOf(ents, q)
                ELSE IF Len(q) = 1 THEN <<>> ELSE LET p == Res(ents, SubSeq(q, 1, Len(q) - 1)) IN
                  IF p = <<>> \/ At(ents, Append(p, q[Len(q)])) = {} THEN <<>> ELSE LocOf(ents, Append(p, q[Len(q)]))
NodeAt(ents, loc) == ents[CHOOSE j \in At(ents, loc) : TRUE].node
W(k, j) == S(k).writes[j - 1]
RECURSIVE Reach(_, _)
Reach(heap, n) == {n} \cup UNION {Reach(heap, heap[n].kids[j][2]) : j \in DOMAIN heap[n].kids}
\* The members of a container after unpacking of the markers.
After(k, n, unpacked) ==
  LET h == Heap(k)[n]
      ks == [j \in DOMAIN h.kids |-> h.kids[j][2]]
  IN IF unpacked /\ h.what # "tuple" THEN [j \in DOMAIN ks |-> IF Heap(k)[ks[j]].kind \in {"cached", "uncached"} THEN Strip(Heap(k), ks[j]) ELSE ks[j]]
     ELSE ks
Kept(k, e, w) == \A n \in DOMAIN Heap(k) : (~Heap(k)[n].temp) =>
                   /\ Heap(k)[n].kind = "list" => e.after[n] = LET a == After(k, n, w.unpack /\ n \in Reach(Heap(k), w.node)) IN [j \in DOMAIN a |-> Ev(k, 1).canon[a[j]]]
                   /\ Heap(k)[n].kind \in {"cached", "uncached"} => e.marks[n] = Ev(k, 1).canon[Heap(k)[n].kids[1][2]]
Clauses(k, j) ==
  LET e == Ev(k, j) IN
  CASE e.op = "write" -> << <<"refused_without_reason", e.raised = "" \/ W(k, j).exotic>>, <<"data_kept_by_writing", e.raised # "" \/ Kept(k, e, W(k, j))>> >>
    [] e.op = "objs_after" -> << <<"data_kept_by_writing", \A n \in DOMAIN e.descr : e.descr[n] = "" \/ Heap(k)[n].kind = "list" \/ e.descr[n] = Ev(k, 1).descr[n]>> >>
    [] e.op = "read" ->
         LET loc == [q \in DOMAIN e.occ |-> Res(file, e.occ[q].path)]
             Good(q) == loc[q] # <<>> /\ e.occ[q].descr = descr[NodeAt(file, loc[q])]
             SameCache(q, r) == S(k).rshared \/ e.occ[q].path[1] = e.occ[r].path[1]
         IN << <<"values_restored", \A q \in DOMAIN e.occ : Good(q)>>,
               <<"shared_objects_restored_once", \A q, r \in DOMAIN e.occ : (Good(q) /\ Good(r) /\ q < r /\ e.occ[q].tok > 0 /\ SameCache(q, r))
                   => (loc[q] = loc[r] => e.occ[q].tok = e.occ[r].tok)>>,
               <<"separate_objects_restored_apart", \A q, r \in DOMAIN e.occ : (Good(q) /\ Good(r) /\ q < r /\ e.occ[q].tok > 0)
                   => (loc[q] # loc[r] => e.occ[q].tok # e.occ[r].tok)>> >>
    [] e.op = "dict" -> << <<"dictionary_restored", e.raised # "" \/ e.same>>, <<"refused_without_reason", e.raised = "">>, <<"data_kept_by_writing", e.kept>> >>
    [] e.op = "sparse" -> << <<"matrix_restored", e.same /\ e.value>>, <<"matrix_format", e.format = S(k).format>> >>
    [] OTHER -> << >>
Step(k, j) == LET e == Ev(k, j) IN
  IF e.op = "write" /\ e.raised = "" THEN LET w == W(k, j) IN Write(Heap(k), file, IF w.shared THEN cache ELSE {}, w.name, w.node)
  ELSE [ents |-> file, cache |-> cache]
TInit == t \in 1..NT /\ i = 1 /\ file = <<>> /\ cache = {} /\ descr = <<>>
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, i)))
         /\ LET s == Step(t, i) IN
            /\ file' = s.ents
            /\ cache' = (IF Ev(t, i).op = "write" /\ W(t, i).shared THEN s.cache ELSE cache)
         /\ descr' = (IF Ev(t, i).op = "objs" THEN Ev(t, i).descr
                      ELSE IF Ev(t, i).op = "write" /\ Len(W(t, i).temps) > 0 THEN [descr EXCEPT ![W(t, i).temps[Len(W(t, i).temps)]] = Ev(t, i).descr]
                      ELSE descr)
         /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i, file, cache, descr>>
===========================================================================
