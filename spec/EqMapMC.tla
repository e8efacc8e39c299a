---------------------------- MODULE EqMapMC ----------------------------
(* The numbering algorithm: periodic conditions are processed in order,    *)
(* pairs touching DOFs coupled before are collected to chains, chains are  *)
(* grouped and every group gets one slave; essential conditions propagate  *)
(* over the pairs.  Checked for all sequences of conditions within bounds  *)
(* against the declarative EqMap.                                          *)
EXTENDS EqMap, TLC, FiniteSetsExt, SequencesExt
CONSTANTS N, NP, NE, Vals
VARIABLES conds, ms, chains, ph
vars == <<conds, ms, chains, ph>>
D == Dofs(N)
\* EPBCs of one or two pairs, with disjoint sides; no DOF twice.
PairSeqs == {<<p>> : p \in {q \in D \X D : q[1] # q[2]}}
  \cup {s \in [1..2 -> D \X D] :
      Cardinality({s[1][1], s[1][2], s[2][1], s[2][2]}) = 4
                                  /\ s[1][1] < s[2][1]}
EbcSets == {S \in SUBSET D : Cardinality(S) \in 0..2}
Init == conds = <<>> /\ ms = [d \in D |-> 0] /\ chains = <<>> /\ ph = "epbc"
Assigned(d) == ms[d] # 0
Partner(d) == IF ms[d] > 0 THEN ms[d] - 1 ELSE -ms[d] - 1
AddEpbc == /\ ph = "epbc" /\ Len(conds) < NP
  /\ \E s \in PairSeqs :
       LET M == {k \in DOMAIN s : Assigned(s[k][1])}
           S == {k \in DOMAIN s : Assigned(s[k][2])}
           ch == [k \in DOMAIN s |->
                   (IF k \in M THEN <<{s[k][1], Partner(s[k][1])}>> ELSE <<>>)
                   \o (IF k \in S THEN <<{s[k][2], Partner(s[k][2])}>> ELSE <<>>)
                   \o (IF k \in M \cup S THEN <<{s[k][1], s[k][2]}>> ELSE <<>>)]
       IN /\ conds' = Append(conds, [k |-> "epbc", p |-> s])
          /\ chains' = chains \o FlattenSeq(ch)
          /\ ms' = [d \in D |-> IF Assigned(d) THEN ms[d]
               ELSE IF \E k \in DOMAIN s : s[k][1] = d
               THEN s[CHOOSE k \in DOMAIN s : s[k][1] = d][2] + 1
               ELSE IF \E k \in DOMAIN s : s[k][2] = d
               THEN -s[CHOOSE k \in DOMAIN s : s[k][2] = d][1] - 1 ELSE 0]
  /\ UNCHANGED ph
RECURSIVE Group(_)
Group(L) == IF L = <<>> THEN {}
  ELSE LET RECURSIVE Close(_, _)
           Close(c, R) == LET hit == {k \in DOMAIN R : R[k] \cap c # {}}
                          IN IF hit = {} THEN <<c, R>>
                             ELSE Close(c \cup UNION {R[k] : k \in hit},
                                        SelectSeq(R, LAMBDA x : x \cap c = {}))
           q == Close(L[1], Tail(L))
       IN {q[1]} \cup Group(q[2])
Resolve == /\ ph = "epbc" /\ ph' = "ebc"
  /\ LET G == Group(chains) IN
     \E pick \in [G -> D] : /\ \A c \in G : pick[c] \in c
       /\ ms' = [d \in D |-> IF \E c \in G : d \in c
            THEN LET c == CHOOSE c \in G : d \in c IN
                 IF pick[c] = d THEN -(Min(c \ {d})) - 1 ELSE pick[c] + 1
            ELSE ms[d]]
  /\ UNCHANGED <<conds, chains>>
AddEbc == /\ ph = "ebc" /\ Len(SelectSeq(conds, LAMBDA c : c.k = "ebc")) < NE
  /\ \E S \in EbcSets \ {{}} : \E x \in Vals :
       conds' = Append(conds, [k |-> "ebc", d |-> SetToSortSeq(S, <), v |-> [j \in 1..Cardinality(S) |-> x]])
  /\ UNCHANGED <<ms, chains, ph>>
Done == ph = "ebc" /\ ph' = "done" /\ UNCHANGED <<conds, ms, chains>>
Next == AddEpbc \/ Resolve \/ AddEbc \/ Done
Spec == Init /\ [][Next]_vars

\* The result.
master == SetToSortSeq({d \in D : ms[d] > 0}, <)
Slave(d) == ms[d] - 1
Val0 == [d \in D |-> IF d \in Given(conds) THEN ValueOf(conds, d) ELSE 0]
\* Propagation masters -> slaves, then slaves -> masters.
G0 == Given(conds)
Val1 == [d \in D |-> LET T == {m \in D : ms[m] > 0 /\ Slave(m) = d /\ m \in G0}
                     IN IF T # {} THEN Val0[Max(T)] ELSE Val0[d]]
G1 == G0 \cup {Slave(m) : m \in {d \in D : ms[d] > 0 /\ d \in G0}}
Val2 == [d \in D |-> IF ms[d] > 0 /\ Slave(d) \in G1 THEN Val1[Slave(d)] ELSE Val1[d]]
G2 == G1 \cup {m \in D : ms[m] > 0 /\ Slave(m) \in G1}
act == {d \in D : d \notin G2 /\ ms[d] <= 0}
EqOf(d) == IF d \in act THEN Cardinality({e \in act : e < d}) ELSE -2
M == [eq |-> [k \in 1..N |-> IF ms[k - 1] > 0 THEN EqOf(Slave(k - 1)) ELSE EqOf(k - 1)],
      master |-> master, slave |-> [k \in DOMAIN master |-> Slave(master[k])],
      ebc |-> SetToSortSeq(G2, <), val |-> [k \in 1..Cardinality(G2) |-> Val2[SetToSortSeq(G2, <)[k]]]]
Correct == ph = "done" => IsMapping(N, conds, M) /\ ValuesOk(conds, M)
=========================================================================
