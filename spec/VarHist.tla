---------------------------- MODULE VarHist ----------------------------
(* DOF history of variables.  A variable is a record                       *)
(*   h: history (-1: none), st: time step, d: sequence of DOF values of    *)
(*   steps 0, -1, ..., NULL where not set, dn/dd: time step length.        *)
(* Values are opaque here: nothing but whole-value assignment and shifts.  *)
EXTENDS Integers, Sequences, FiniteSets
NULL == <<>>
Var(h) == [h |-> h, st |-> 0, d |-> <<NULL>>, dn |-> 1, dd |-> 1]

\* History is allocated by init_history(), with nothing set.
InitHist(v) == IF v.h < 0 THEN v
               ELSE [v EXCEPT !.st = 0, !.d = [k \in 1..(v.h + 1) |-> NULL]]
InRange(v, s) == s <= 0 /\ -s < Len(v.d)
Assign(v, s, x) == [v EXCEPT !.d[1 - s] = x]
\* The previous values in the initial step are the initial values.
Eff(v, s) == IF v.st = 0 /\ s = -1 THEN 0 ELSE s
Readable(v, s) == InRange(v, Eff(v, s)) /\ v.d[1 - Eff(v, s)] # NULL
Read(v, s) == v.d[1 - Eff(v, s)]
DerReadable(v, s) == v.h >= 0 /\ Readable(v, s) /\ Readable(v, s - 1)
\* Shift by one step; steps never set start with the next newer values.
RECURSIVE Pad(_, _)
Pad(d, k) == IF d[k] # NULL \/ k = 1 THEN d[k] ELSE Pad(d, k - 1)
Advance(v, step) ==
  IF v.h < 0 THEN v
  ELSE [v EXCEPT !.st = step + 1,
                 !.d = [k \in 1..Len(v.d) |-> IF k = 1 THEN v.d[1]
                                              ELSE Pad(v.d, k - 1)]]
SetDt(v, dn, dd) == [v EXCEPT !.dn = dn, !.dd = dd]
=========================================================================
