---------------------------- MODULE EqTextMC ----------------------------
(* Prefactors generated token by token; used both for the exhaustive check *)
(* that the two definitions of the value agree and for random generation.  *)
EXTENDS EqText, TLC, Json
CONSTANTS MaxLen, NumIds
VARIABLES ts, dep, md, hist
vars == <<ts, dep, md, hist>>
N(s, re, im) == [k |-> "n", s |-> s, re |-> re, im |-> im]
T(c) == [k |-> c, s |-> c]
Nums == <<N("2", 40, 0), N("3j", 0, 60), N("-1.5", -30, 0), N("0.25", 5, 0), N("1e1", 200, 0), N("2.5E-1", 5, 0),
          N("4.", 80, 0), N("10", 200, 0), N("-0.5j", 0, -10), N("+7", 140, 0), N("0", 0, 0), N("1.0e+0", 20, 0)>>
\* After a unary sign or an operator, and at the beginning.
Init == ts = <<>> /\ dep = 0 /\ md = "start" /\ hist = <<>>
\* number_expr: [sign] "("* number (op number_expr)* ")"*
Sign == md = "start" /\ \E c \in {"+", "-"} : ts' = Append(ts, T(c)) /\ md' = "par" /\ UNCHANGED <<dep, hist>>
Open == md \in {"start", "par"} /\ ts' = Append(ts, T("(")) /\ dep' = dep + 1 /\ md' = "par" /\ UNCHANGED hist
Num == md \in {"start", "par"} /\ \E k \in NumIds : ts' = Append(ts, Nums[k]) /\ md' = "op" /\ UNCHANGED <<dep, hist>>
\* A number in parentheses only cannot be followed by an operator.
Op == md = "op" /\ (ts[Len(ts)].k = ")" => Cardinality({k \in DOMAIN ts : ts[k].k = "n"}) > 1)
      /\ \E c \in {"+", "-"} : ts' = Append(ts, T(c)) /\ md' = "start" /\ UNCHANGED <<dep, hist>>
Close == md = "op" /\ dep > 0 /\ ts' = Append(ts, T(")")) /\ dep' = dep - 1 /\ UNCHANGED <<md, hist>>
Next == Len(ts) < MaxLen /\ (Sign \/ Open \/ Num \/ Op \/ Close)
Spec == Init /\ [][Next]_vars
Complete == md = "op" /\ dep = 0
Agree == Complete => Value(ts) = Value2(ts)
\* --- random prefactors
Emit == /\ Complete /\ Len(ts) > 0 /\ hist' = Append(hist, ts) /\ ts' = <<>> /\ md' = "start" /\ UNCHANGED dep
Restart == /\ Len(ts) >= MaxLen /\ ~Complete /\ ts' = <<>> /\ md' = "start" /\ dep' = 0 /\ UNCHANGED hist
SimSpec == Init /\ [][Next \/ Emit \/ Restart]_vars
EmitHist == (Len(hist) = 6 /\ ts = <<>>) => PrintT(<<"@beh", ToJson(hist)>>)
Stop == Len(hist) <= 6
=========================================================================
