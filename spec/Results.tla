------------------------------ MODULE Results ------------------------------
(* A multi-step results file: a map of steps to what was written in them,  *)
(* and all that its readers return.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NNod == 6
NEl == 2
Conn == <<<<0, 2, 3, 1>>, <<2, 4, 5, 3>>>>
\* An item: [key, mode, id, dim, dofs, cx]; its values are Base + position.
Rows(it) == CASE it.mode = "vertex" -> NNod [] it.mode = "cell" -> NEl [] OTHER -> it.id + 1
Base(it) == 1000 * it.id
Row(it, r) == [j \in 1..it.dim |-> Base(it) + r * it.dim + j - 1]      \* r from 0
RECURSIVE Flat(_, _)
Flat(it, r) == IF r = Rows(it) THEN <<>> ELSE Row(it, r) \o Flat(it, r + 1)
Shape(it) == IF it.mode = "cell" THEN <<NEl, 1, it.dim, 1>> ELSE <<Rows(it), it.dim>>
\* --- file states: [has, steps: step -> [t, nt, items], last, ts]
Empty == [has |-> FALSE, steps |-> [x \in {} |-> 0], last |-> -1]
Keys(items) == {items[j].key : j \in DOMAIN items}
CanWrite(f, step) == step = 0 \/ ~f.has \/ step \notin DOMAIN f.steps
Write(f, step, rec) ==
  LET old == IF step = 0 \/ ~f.has THEN [x \in {} |-> 0] ELSE f.steps IN
  [has |-> TRUE, last |-> step,
   steps |-> [x \in DOMAIN old \cup {step} |-> IF x = step THEN rec ELSE old[x]]]
\* A refused or interrupted write leaves what was complete.
Fail(f, step) == IF step = 0 \/ ~f.has THEN [Empty EXCEPT !.has = TRUE, !.last = step] ELSE f
MeshOnly(f, step) == IF step = 0 \/ ~f.has THEN [Empty EXCEPT !.has = TRUE, !.last = step] ELSE f
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE
  LET a == CHOOSE x \in S : \A y \in S : x <= y IN <<a>> \o Ordered(S \ {a})
Steps(f) == Ordered(DOMAIN f.steps)
Item(f, step, key) == LET q == f.steps[step].items IN q[CHOOSE j \in DOMAIN q : q[j].key = key]
HasKey(f, step, key) == key \in Keys(f.steps[step].items)
InAll(f, key) == \A x \in DOMAIN f.steps : HasKey(f, x, key)
\* The history of a row of a variable: in the order of steps.
History(f, key, r) == LET s == Steps(f) IN [j \in DOMAIN s |-> Row(Item(f, s[j], key), r)]
SumRows(f, key, el) == LET s == Steps(f) it(j) == Item(f, s[j], key) c == Conn[el + 1] IN
  [j \in DOMAIN s |-> [d \in 1..it(j).dim |-> Row(it(j), c[1])[d] + Row(it(j), c[2])[d]
                                              + Row(it(j), c[3])[d] + Row(it(j), c[4])[d]]]
=============================================================================
