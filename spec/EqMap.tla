----------------------------- MODULE EqMap -----------------------------
(* DOFs of one variable under essential (EBC) and periodic (EPBC)          *)
(* conditions.  DOFs are 0 .. n-1.  The conditions, in key order, are      *)
(* sequences of                                                            *)
(*   [k |-> "ebc", d |-> sequence of DOFs, v |-> sequence of values]       *)
(*   [k |-> "epbc", p |-> sequence of pairs of DOFs]                       *)
EXTENDS Integers, Sequences, FiniteSets
Dofs(n) == 0..(n - 1)
RangeOf(s) == {s[k] : k \in DOMAIN s}
\* The value given to a DOF: that of the last condition selecting it.
Given(conds) == UNION {RangeOf(conds[k].d) : k \in {j \in DOMAIN conds : conds[j].k = "ebc"}}
LastOf(conds, d) == CHOOSE k \in DOMAIN conds :
   /\ conds[k].k = "ebc" /\ d \in RangeOf(conds[k].d)
   /\ \A j \in DOMAIN conds : (j > k /\ conds[j].k = "ebc") => d \notin RangeOf(conds[j].d)
ValueOf(conds, d) == LET c == conds[LastOf(conds, d)]
                     IN c.v[CHOOSE j \in DOMAIN c.d : c.d[j] = d]
\* Coupled DOFs: the connected components of the periodic pairs.
Pairs(conds) == UNION {RangeOf(conds[k].p) : k \in {j \in DOMAIN conds : conds[j].k = "epbc"}}
Coupled(conds) == UNION {{p[1], p[2]} : p \in Pairs(conds)}
RECURSIVE Grow(_, _)
Grow(S, P) == LET T == S \cup {q[2] : q \in {p \in P : p[1] \in S}}
                         \cup {q[1] : q \in {p \in P : p[2] \in S}}
              IN IF T = S THEN S ELSE Grow(T, P)
ClassOf(conds, d) == Grow({d}, Pairs(conds))
Classes(conds) == LET P == Pairs(conds)
                      RECURSIVE F(_)
                      F(S) == IF S = {} THEN {}
                              ELSE LET c == Grow({CHOOSE x \in S : TRUE}, P)
                                   IN {c} \cup F(S \ c)
                  IN F(Coupled(conds))
\* The prescribed DOFs: given ones and those coupled with them.
Prescribed(conds) == LET G == Given(conds) IN
   G \cup UNION {c \in Classes(conds) : c \cap G # {}}

\* A correct mapping: m.eq (DOF -> equation or negative), m.ebc -> values,
\* m.master -> m.slave.
IsMapping(n, conds, m) ==
  LET P == Prescribed(conds)
      CL == Classes(conds)
      Mst == RangeOf(m.master)
      active == {d \in Dofs(n) : d \notin P /\ d \notin Mst}
  IN /\ \A c \in CL : Cardinality(c \ Mst) = 1           \* one slave each
     /\ Mst \subseteq Coupled(conds)
     /\ Cardinality(Mst) = Len(m.master) /\ Len(m.slave) = Len(m.master)
     /\ \A k \in DOMAIN m.master : \E c \in CL : {m.master[k], m.slave[k]} \subseteq c
                                                /\ m.slave[k] \notin Mst
     /\ RangeOf(m.ebc) = P /\ Cardinality(P) = Len(m.ebc)
     /\ {m.eq[d + 1] : d \in active} = 0..(Cardinality(active) - 1)
     /\ \A d \in P : m.eq[d + 1] < 0
     /\ \A k \in DOMAIN m.master : m.eq[m.master[k] + 1] = m.eq[m.slave[k] + 1]
     /\ Len(m.eq) = n
ValuesOk(conds, m) ==
  LET G == Given(conds)
      CL == Classes(conds)
      V(d) == m.val[CHOOSE k \in DOMAIN m.ebc : m.ebc[k] = d]
  IN /\ RangeOf(m.ebc) = Prescribed(conds) /\ Len(m.val) = Len(m.ebc)
     /\ \A d \in RangeOf(m.ebc) \ Coupled(conds) : V(d) = ValueOf(conds, d)
     /\ \A c \in CL : c \cap G # {} =>
          /\ \A a, b \in c : V(a) = V(b)
          /\ \E d \in c \cap G : \A a \in c : V(a) = ValueOf(conds, d)
=========================================================================
