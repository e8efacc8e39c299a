------------------------------ MODULE LcbcMC ------------------------------
(* The numbering of reduced DOFs with model reduction and tying operators  *)
(* added one by one: per variable, free DOFs come first, then the new ones.*)
EXTENDS Lcbc, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS NVar, ND, MaxOps, MaxHist
VARIABLES ops, ebc, refused, hist
vars == <<ops, ebc, refused, hist>>
V == 1..NVar
D == 1..ND
All == V \X D
Init == ops = <<>> /\ ebc \in SUBSET All /\ Cardinality(ebc) <= 1 /\ refused = FALSE /\ hist = <<>>
Used == UNION {ops[k].m \cup ops[k].s : k \in DOMAIN ops}
Add(o) == /\ Len(ops) < MaxOps /\ ~refused
          /\ IF (o.m \cup o.s) \cap Used # {} \/ (o.new > 0 /\ o.m \cap ebc # {})
             THEN refused' = TRUE /\ ops' = ops
             ELSE refused' = FALSE /\ ops' = Append(ops, o)
          /\ UNCHANGED <<ebc, hist>>
\* model reduction: every DOF in m is given by new DOFs
AddMR == \E v \in V : \E s \in SUBSET D : \E n \in 1..2 : s # {} /\ Add([m |-> {v} \X s, s |-> {}, new |-> n, map |-> <<>>])
\* ties: a DOF equals another one (of any variable) plus a shift
AddTie == \E a, b \in All : a # b /\ Add([m |-> {a}, s |-> {b}, new |-> 0, map |-> <<a, b>>])
Next == AddMR \/ AddTie
Spec == Init /\ [][Next]_vars
Skip(o) == o.new = 0 /\ (o.m \cup o.s) \cap ebc # {}
Eff == SelectSeq(ops, LAMBDA o : ~Skip(o))
Constrained == UNION {Eff[k].m : k \in DOMAIN Eff}
Free(v) == {d \in D : <<v, d>> \notin ebc \cup Constrained}
VarOf(o) == (CHOOSE x \in o.m : TRUE)[1]
New(v) == SumS([k \in DOMAIN Eff |-> IF VarOf(Eff[k]) = v THEN Eff[k].new ELSE 0])
RECURSIVE Off(_)
Off(v) == IF v = 1 THEN 0 ELSE Off(v - 1) + Cardinality(Free(v - 1)) + New(v - 1)
FreeCol(x) == Off(x[1]) + Cardinality({d \in Free(x[1]) : d <= x[2]})
NewCols(k) == LET v == VarOf(Eff[k])
                  b == Off(v) + Cardinality(Free(v)) + SumS([j \in 1..(k - 1) |-> IF VarOf(Eff[j]) = v THEN Eff[j].new ELSE 0])
              IN (b + 1)..(b + Eff[k].new)
FreeAll == {x \in All : x[2] \in Free(x[1])}
Total == Off(NVar) + Cardinality(Free(NVar)) + New(NVar)
Numbered == /\ \A x, y \in FreeAll : x # y => FreeCol(x) # FreeCol(y)
            /\ \A k \in DOMAIN Eff : \A x \in FreeAll : FreeCol(x) \notin NewCols(k)
            /\ \A j, k \in DOMAIN Eff : j # k => NewCols(j) \cap NewCols(k) = {}
            /\ {FreeCol(x) : x \in FreeAll} \cup UNION {NewCols(k) : k \in DOMAIN Eff} = 1..Total
Count == Total = Cardinality(All) - Cardinality(ebc) - Cardinality(Constrained) + SumS([k \in DOMAIN Eff |-> Eff[k].new])
\* what a tie refers to is always free, so one multiplication expands a state
TiesToFree == \A k \in DOMAIN Eff : Eff[k].new = 0 => Eff[k].map[2] \in FreeAll
SimNext == /\ Len(hist) < MaxHist
           /\ \E x \in {[k \in 1..12 |-> RandomElement((0..23) \ {-Len(hist)})]} : hist' = Append(hist, x)
           /\ UNCHANGED <<ops, ebc, refused>>
SimInit == ops = <<>> /\ ebc = {} /\ refused = FALSE /\ hist = <<>>
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) < MaxHist \/ PrintT(<<"@beh", ToJson(hist)>>)
============================================================================
