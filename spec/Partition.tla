---------------------------- MODULE Partition ----------------------------
(* Partitioning of a domain to tasks and ownership of its DOFs.            *)
(*                                                                         *)
(* asg: the task (from 0) of each cell (cells from 1).  conn: the DOFs     *)
(* (from 0) of each cell.  facets: the vertex sets of facets of each cell. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Els(s) == {s[k] : k \in DOMAIN s}
CellsOf(asg, t) == {c \in DOMAIN asg : asg[c] = t}
Tasks(asg) == Els(asg)
DofsOf(conn, S) == UNION {Els(conn[c]) : c \in S}
Around(conn, D) == {c \in DOMAIN conn : Els(conn[c]) \cap D # {}}
\* DOFs in cells of the task only.
Inner(asg, conn, t) == DofsOf(conn, CellsOf(asg, t)) \ DofsOf(conn, {c \in DOMAIN asg : asg[c] # t})
\* Common facets of two tasks.
Interface(asg, facets, a, b) ==
  UNION {Els(facets[c]) : c \in CellsOf(asg, a)} \cap UNION {Els(facets[c]) : c \in CellsOf(asg, b)}

(* Requirements on owned: task -> set of DOFs.  *)
OneOwner(owned, All) == /\ UNION {owned[t] : t \in DOMAIN owned} = All
                        /\ \A a, b \in DOMAIN owned : a = b \/ owned[a] \cap owned[b] = {}
OwnDofs(asg, conn, owned) == \A t \in DOMAIN owned : owned[t] \subseteq DofsOf(conn, CellsOf(asg, t))
InnerOwned(asg, conn, owned) == \A t \in DOMAIN owned : Inner(asg, conn, t) \subseteq owned[t]
\* Rows of owned DOFs can be assembled by the task without the others.
Enough(asg, conn, owned, over) == \A t \in DOMAIN owned : Around(conn, owned[t]) \subseteq CellsOf(asg, t) \cup over[t]

(* Numbering: sequences of numbers of owned DOFs, task by task.  *)
RECURSIVE Before(_, _)
Before(n, k) == IF k = 1 THEN 0 ELSE n[k - 1] + Before(n, k - 1)

(* Known contributions of cells (from 0) of local DOFs k, l (from 0) of fields f, g.  *)
Vec(f, c, k) == ((c * 7 + k * 3 + f * 5) % 11) - 5
Mat(f, g, c, k, l) == ((c * 5 + k * 3 + l * 7 + f + 2 * g) % 7) - 3
W1(j) == (j * j * 7 + 3 * j + 1) % 101
W2(j) == (j * 5 + 2) % 17
==========================================================================
