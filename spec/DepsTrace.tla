---------------------------- MODULE DepsTrace ----------------------------
(* Conformance of the recorded orderings with Deps.                       *)
EXTENDS Deps, TraceLib
VARIABLES t, i
vars == <<t, i>>

DepsOf(items) == [x \in {items[k].n : k \in DOMAIN items} |->
   Rng(items[CHOOSE k \in DOMAIN items : items[k].n = x].d)]

\* Value of a region: its own vertices and those of its union prerequisites.
RECURSIVE Value(_, _)
Value(items, x) ==
  LET it == items[CHOOSE k \in DOMAIN items : items[k].n = x] IN
  Rng(it.own) \cup UNION {Value(items, y) : y \in Rng(it.u)}

RegionClauses(e) ==
  LET deps == DepsOf(e.items)
      dup == Cardinality(DOMAIN deps) < Len(e.items)
      bad == dup \/ Refused(deps, DOMAIN deps) IN
  << <<"undefined, circular or repeated region accepted", bad => ~e.ok>>,
     <<"valid definitions refused", ~bad => e.ok>>,
     <<"refused by other than ValueError", e.ok \/ e.exc = "ValueError">>,
     <<"regions not created once in the order of dependence",
       (e.ok /\ ~bad) => Ordered(deps, DOMAIN deps, e.out)>>,
     <<"region contents", (e.ok /\ ~bad) =>
       \A k \in DOMAIN e.out : Rng(e.verts[k]) = Value(e.items, e.out[k])>> >>
ReqClauses(e) ==
  LET deps == DepsOf(e.items)
      need == Rng(e.need)
      bad == Refused(deps, need) IN
  << <<"undefined or circular requirement accepted", bad => ~e.ok>>,
     <<"valid requirements refused", ~bad => e.ok>>,
     <<"refused by other than ValueError", e.ok \/ e.exc = "ValueError">>,
     <<"requirements not listed once in the order of dependence",
       (e.ok /\ ~bad) => Ordered(deps, need, e.out)>>,
     <<"definitions modified", e.kept>> >>
BlockClauses(e) ==
  LET deps == DepsOf(e.items)
      good == Solvable(deps) IN
  << <<"unresolvable equations accepted", ~good => ~e.ok>>,
     <<"resolvable equations refused", good => e.ok>>,
     <<"refused by other than ValueError", e.ok \/ e.exc = "ValueError">>,
     <<"blocks", (e.ok /\ good) => BlocksOrdered(deps, e.out)>>,
     <<"definitions modified", e.kept>> >>
Clauses(e) == CASE e.op = "regions" -> RegionClauses(e)
                [] e.op = "reqs" -> ReqClauses(e)
                [] e.op = "blocks" -> BlockClauses(e)
TInit == t \in 1..NT /\ i = 1
TNext == /\ i <= NEv(t)
         /\ Report(t, i, Bad(Clauses(Ev(t, i))))
         /\ i' = i + 1
         /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
=========================================================================
