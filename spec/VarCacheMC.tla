---------------------------- MODULE VarCacheMC ----------------------------
(* The evaluate cache of one variable with history HS: entries keyed by    *)
(* (what, step, derivative time step or 0).  Rule: no cached entry differs *)
(* from what a fresh evaluation would give.                                *)
EXTENDS VarHist, TLC
CONSTANTS Vals, HS, MaxStep, What, Dts
VARIABLES v, cache
vars == <<v, cache>>
Steps == {0, -1, -2}
\* Fresh evaluation; NULL: refused.
Fresh(w, q) == IF q[3] = 0 THEN IF Readable(w, q[2]) THEN <<q[1], Read(w, q[2])>> ELSE NULL
               ELSE IF DerReadable(w, q[2])
                    THEN <<q[1], Read(w, q[2]), Read(w, q[2] - 1), q[3]>> ELSE NULL
Keys == What \X Steps \X ({0} \cup Dts)
Init == v = InitHist(Var(HS)) /\ cache = [q \in {} |-> NULL]
Without(S) == [q \in {p \in DOMAIN cache : p[2] \notin S} |-> cache[q]]
\* What becomes wrong when the values of step s change: the step, the
\* derivative at the next step; in the initial step also step -1.
Stale(w, s) == {s} \cup (IF s < 0 THEN {s + 1} ELSE IF w.st = 0 THEN {-1} ELSE {})
Set == \E s \in Steps, a \in Vals : /\ InRange(v, s)
  /\ v' = Assign(v, s, <<a>>) /\ cache' = Without(Stale(v, s))
Reset == v' = InitHist(v) /\ cache' = [q \in {} |-> NULL]
\* Entries move with the values; derivatives too, except those of the
\* initial step, where step -1 was an alias.
Adv == /\ v.st < MaxStep /\ v.d[1] # NULL
  /\ v' = Advance(v, v.st)
  /\ cache' = IF v.st = 0 THEN [q \in {} |-> NULL]
       ELSE LET T == {p \in Keys : -p[2] - 1 >= 0 /\ -(p[2] + 1) < HS
                                   /\ <<p[1], p[2] + 1, p[3]>> \in DOMAIN cache}
            IN [p \in T |-> cache[<<p[1], p[2] + 1, p[3]>>]]
Eval == \E q \in Keys : /\ Fresh(v, q) # NULL /\ q \notin DOMAIN cache
  /\ cache' = [p \in DOMAIN cache \cup {q} |-> IF p = q THEN Fresh(v, q) ELSE cache[p]]
  /\ UNCHANGED v
Clear == cache' = [q \in {} |-> NULL] /\ UNCHANGED v
Next == Set \/ Reset \/ Adv \/ Eval \/ Clear
Spec == Init /\ [][Next]_vars
\* (An entry can outlive the history it was computed from.)
NeverStale == \A q \in DOMAIN cache : Fresh(v, q) \in {NULL, cache[q]}
=========================================================================
