------------------------------ MODULE Deps ------------------------------
(* Items that depend on each other.  decl: the items in the order of      *)
(* declaration, deps[x]: the prerequisites of x, possibly undeclared.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL R(s) == {s[k] : k \in DOMAIN s}
\* Everything reachable from S.
RECURSIVE Reach(_, _)
Reach(deps, S) ==
  LET T == S \cup UNION {IF x \in DOMAIN deps THEN deps[x] ELSE {} : x \in S} IN
  IF T = S THEN S ELSE Reach(deps, T)
Before(deps, x) == IF x \in DOMAIN deps THEN Reach(deps, deps[x]) ELSE {}
Undefined(deps, need) == \E x \in Reach(deps, need) : x \notin DOMAIN deps
Cyclic(deps, need) == \E x \in Reach(deps, need) : x \in Before(deps, x)
Refused(deps, need) == Undefined(deps, need) \/ Cyclic(deps, need)
\* out processes exactly the needed items, each once and after its
\* prerequisites.
Ordered(deps, need, out) ==
  /\ Cardinality(R(out)) = Len(out)
  /\ R(out) = Reach(deps, need)
  /\ \A k \in DOMAIN out : deps[out[k]] \subseteq {out[j] : j \in 1..(k - 1)}

\* Blocks of equations: the smallest groups that can be solved on their own
\* after the earlier ones.
Block(deps, x) == {y \in Reach(deps, {x}) : x \in Reach(deps, {y})}
Solvable(deps) == UNION {deps[x] : x \in DOMAIN deps} = DOMAIN deps
SelfRefs(deps) == \A x \in DOMAIN deps : x \in deps[x]
Needs(deps, B, done) == UNION {deps[x] : x \in B} \ done
BlocksOrdered(deps, out) ==
  /\ UNION {R(out[k]) : k \in DOMAIN out} = DOMAIN deps
  /\ \A k \in DOMAIN out :
       LET B == R(out[k])
           done == UNION {R(out[j]) : j \in 1..(k - 1)} IN
       /\ B \cap done = {} /\ Cardinality(B) = Len(out[k])
       /\ Needs(deps, B, done) = B
       /\ \A S \in (SUBSET B) \ {{}, B} : Needs(deps, S, done) # S
  \* The blocks are unique if each equation depends on its own variable.
  /\ SelfRefs(deps) => \A k \in DOMAIN out :
                          \A x \in R(out[k]) : R(out[k]) = Block(deps, x)
=========================================================================
