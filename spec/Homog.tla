------------------------------- MODULE Homog -------------------------------
(* Requirements of homogenized coefficients: a graph of named items, each  *)
(* to be computed once, after all that it requires.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[k] : k \in DOMAIN q}
\* g: name -> sequence of required names (with repetitions allowed).
Defined(g, S) == \A n \in S \cap DOMAIN g : \A r \in Range(g[n]) : r \in DOMAIN g
RECURSIVE Closure(_, _)
Closure(g, S) == LET T == S \cup UNION {Range(g[n]) : n \in S \cap DOMAIN g} IN
                 IF T = S THEN S ELSE Closure(g, T)
Below(g, n) == IF n \in DOMAIN g THEN Closure(g, Range(g[n])) ELSE {}
\* Needed names; they can be computed if all are defined, without cycles.
Needed(g, S) == Closure(g, S)
Solvable(g, S) == /\ Needed(g, S) \subseteq DOMAIN g
                  /\ \A n \in Needed(g, S) : n \notin Below(g, n)
Chunks(n, size) == [k \in 1..((n + size - 1) \div size) |->
                    {j \in 0..(n - 1) : j \div size = k - 1}]
============================================================================
