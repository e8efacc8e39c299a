-------------------------- MODULE TimeStepOps --------------------------
(* Histories of direct calls of the two steppers.                         *)
EXTENDS TimeStep, Json
CONSTANTS N, H, MAXLEN
VARIABLES f, v, sv, hist
vars == <<f, v, sv, hist>>
Init == /\ f = FixedInit(N, H) /\ v = VarInit((N - 1) * H, H)
        /\ sv = <<>> /\ hist = <<>>
Op(o) ==
  /\ hist' = Append(hist, o)
  /\ CASE o.op = "advance" -> f' = FAdvance(f) /\ v' = VAdvance(v) /\ UNCHANGED sv
       [] o.op = "set" -> /\ f' = FSetStep(f, o.k)
                          /\ v' = IF o.k = 0 THEN VReset(v) ELSE v
                          /\ UNCHANGED sv
       [] o.op = "dt" -> /\ v' = VSetDt(v, o.dt, o.u) /\ UNCHANGED <<f, sv>>
       [] o.op = "sub" -> f' = FRestore(FSub(f, o.dt)) /\ UNCHANGED <<v, sv>>
       [] o.op = "save" -> sv' = Append(sv, <<f, v>>) /\ UNCHANGED <<f, v>>
       [] o.op = "load" -> /\ f' = FAt(f, sv[o.k][1].step) /\ v' = sv[o.k][2]
                           /\ UNCHANGED sv
Ops == {[op |-> "advance"]} \cup [op : {"set"}, k : (-N - 1)..(N + 1)]
       \cup [op : {"dt"}, dt : {H \div 2, 2 * H}, u : BOOLEAN]
       \cup [op : {"sub"}, dt : {H \div 2}] \cup {[op |-> "save"]}
       \cup [op : {"load"}, k : 1..Len(sv)]
Next == \E o \in Ops : /\ (o.op = "dt" => VStep(v) > 0)
                       /\ (o.op = "save" => Len(sv) < 1)
                       /\ Op(o)
Spec == Init /\ [][Next]_vars
view == <<f, v, sv>>
Bounded == Len(v.times) <= N + 2
InRange == f.step \in 0..(f.n - 1) /\ f.nt = f.step * f.h
           /\ (~f.sub => f.time = f.step * f.h)
TimesIncrease == \A k \in 1..(Len(v.times) - 1) : v.times[k] < v.times[k + 1]
\* A loaded stepper continues identically.
SimNext == /\ Len(hist) < MAXLEN
           /\ \E w \in {RandomElement({"advance", "advance2", "advance3", "set", "dt", "sub", "save", "load"})} :
              LET cand == {o \in Ops : o.op = w} IN
              IF cand = {} \/ (w = "dt" /\ VStep(v) = 0)
              THEN Op([op |-> "advance"])
              ELSE \E o \in {RandomElement(cand)} : Op(o)
SimSpec == Init /\ [][SimNext]_vars
EmitHist == Len(hist) = MAXLEN => PrintT(<<"@beh", ToJson(hist)>>)
=========================================================================
