------------------------------ MODULE ObjFile ------------------------------
(* Objects written into a tree of file nodes with soft links to what has   *)
(* been stored already, and restored with their sharing.                   *)
(*                                                                         *)
(* heap[n] = [kind, kids]: the objects, kids: sequence of <<name, object>>; *)
(* kinds: "leaf" (meshes, sparse matrices...: stored once), "val" (other   *)
(* values), "list" (containers), "cached", "uncached" (markers with one    *)
(* kid), "link" (a soft link to a path, kids = <<>>, field path).          *)
(* A path is a sequence of names.  An entry of a file: [path, node, loc,   *)
(* un]: what is restored at path is the object node that is stored at loc; *)
(* un: inside of an uncached marker.                                       *)
EXTENDS Integers, Sequences
RECURSIVE Strip(_, _)
Strip(heap, n) == IF heap[n].kind \in {"cached", "uncached"} THEN Strip(heap, heap[n].kids[1][2]) ELSE n
Lookup(cache, n) == {c \in cache : c.obj = n}
Found(cache, n) == Lookup(cache, n) # {}
PathOf(cache, n) == (CHOOSE c \in Lookup(cache, n) : TRUE).path
Put(cache, n, p) == {c \in cache : c.obj # n} \cup {[obj |-> n, path |-> p]}
\* Links lead to where the object is stored.
At(ents, p) == {k \in DOMAIN ents : ents[k].path = p}
LocOf(ents, p) == IF At(ents, p) = {} THEN p ELSE ents[CHOOSE k \in At(ents, p) : TRUE].loc
UnOf(ents, p) == IF At(ents, p) = {} THEN FALSE ELSE ents[CHOOSE k \in At(ents, p) : TRUE].un
Entry(p, n, loc, un) == [path |-> p, node |-> n, loc |-> loc, un |-> un]
\* st: [ents, cache]
RECURSIVE Enc(_, _, _, _, _), EncKids(_, _, _, _, _)
Enc(heap, st, p, n, un) ==
  LET h == heap[n]
      kid == h.kids[1][2]
  IN CASE h.kind = "leaf" -> IF Found(st.cache, n) THEN [st EXCEPT !.ents = Append(@, Entry(p, n, LocOf(@, PathOf(st.cache, n)), un))]
                             ELSE [ents |-> Append(st.ents, Entry(p, n, p, un)), cache |-> Put(st.cache, n, p)]
       [] h.kind = "val" -> [st EXCEPT !.ents = Append(@, Entry(p, n, p, un))]
       [] h.kind = "list" -> EncKids(heap, [st EXCEPT !.ents = Append(@, Entry(p, n, p, un))], p, h.kids, un)
       [] h.kind = "link" -> [st EXCEPT !.ents = Append(@, LET e == st.ents[CHOOSE k \in At(st.ents, h.path) : TRUE] IN Entry(p, e.node, e.loc, un))]
       [] h.kind = "cached" ->
            IF Found(st.cache, kid) THEN [st EXCEPT !.ents = Append(@, Entry(p, Strip(heap, kid), LocOf(@, PathOf(st.cache, kid)), un \/ UnOf(@, PathOf(st.cache, kid))))]
            ELSE LET s == Enc(heap, st, p, kid, un) IN [s EXCEPT !.cache = Put(@, kid, p)]
       [] h.kind = "uncached" -> [Enc(heap, [st EXCEPT !.cache = {}], p, kid, TRUE) EXCEPT !.cache = st.cache]
EncKids(heap, st, p, kids, un) ==
  IF kids = <<>> THEN st
  ELSE EncKids(heap, Enc(heap, st, Append(p, Head(kids)[1]), Head(kids)[2], un), p, Tail(kids), un)
Write(heap, file, cache, name, n) == Enc(heap, [ents |-> file, cache |-> cache], <<name>>, n, FALSE)
===========================================================================
