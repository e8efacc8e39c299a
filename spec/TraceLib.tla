---------------------------- MODULE TraceLib ----------------------------
(* Common machinery of the trace specifications.  A trace file holds one   *)
(* JSON object per line; its field ev is the sequence of recorded events.  *)
(* Every trace is a chain of states (t, i, model state); all the traces    *)
(* are checked in one TLC run.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt,
        FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)
NEv(t) == Len(Trace[t].ev)
Ev(t, i) == Trace[t].ev[i]

Rng(s) == {s[k] : k \in DOMAIN s}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
\* The set of names of the violated clauses; clauses: sequence of <<name, ok>>.
Bad(clauses) == {clauses[k][1] : k \in {j \in DOMAIN clauses : ~clauses[j][2]}}
Report(t, i, fails) == IF fails = {} THEN TRUE
                       ELSE PrintT(<<"@fail", t, i, fails>>)
Has(r, f) == f \in DOMAIN r
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
StrictlySorted(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
SumF(f) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, f, DOMAIN f)
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
=========================================================================
