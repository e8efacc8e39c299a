---------------------------- MODULE LogFileTrace ----------------------------
(* Logs read back against LogFile.  Values are in quarters.                *)
EXTENDS LogFile, TraceLib
VARIABLES t, i, lg
S(k) == Trace[k].scn
Op(k, j) == S(k).ops[j]
Groups(k) == [g \in 1..S(k).late |-> Len(S(k).groups[g].names)]
Igs(k, o) == IF o.full THEN 1..Len(lg.groups) ELSE Rng(o.igs)
Curve(r, c) == IF c <= Len(r.curves) THEN r.curves[c] ELSE Curve0
\* A curve with no values may be missing.
Same(r, curves) == Len(r.curves) <= Len(curves) /\ \A c \in 1..Len(curves) :
                     Curve(r, c).xs = curves[c].xs /\ Curve(r, c).ys = curves[c].ys /\ Curve(r, c).vs = curves[c].vs
Info(k, n) == [g \in 1..n |-> S(k).groups[g].info]
Clauses(k, j) ==
  LET e == Ev(k, j) IN
  CASE e.op \in {"read", "rewritten"} ->
         << <<"values_read", Len(e.got.curves) <= Len(lg.curves) /\ \A c \in 1..Len(lg.curves) : Curve(e.got, c).ys = lg.curves[c].ys>>,
            <<"x_values_read", \A c \in 1..Len(lg.curves) : Curve(e.got, c).xs = lg.curves[c].xs>>,
            <<"vertical_lines_read", \A c \in 1..Len(lg.curves) : Curve(e.got, c).vs = lg.curves[c].vs>>,
            <<"description_read", e.got.groups = Info(k, IF lg.open THEN Len(lg.groups) ELSE lg.said)>> >>
    [] e.op = "bad" -> << <<"wrong_data_refused", e.raised # "">> >>
    [] OTHER -> << <<"raised", e.raised \in {"", "?"}>> >>
Next1(k, j) ==
  LET e == Ev(k, j) IN
  IF e.op \in {"read", "rewritten", "bad", "save"} THEN lg
  ELSE LET o == Op(k, j) IN
  CASE e.op = "log" -> Log(lg, Igs(k, o), IF o.usex THEN o.x ELSE [g \in 1..Len(lg.groups) |-> <<>>], o.codes, 4)
    [] e.op = "vline" -> VLine(lg, Igs(k, o))
    [] e.op = "add" -> LET a == AddGroup(lg, Len(S(k).groups[Len(lg.groups) + 1].names)) IN
                       [a EXCEPT !.said = IF lg.open THEN Len(a.groups) ELSE @]
    [] e.op = "close" -> Close(lg)
    [] OTHER -> lg
TInit == t \in 1..NT /\ i = 1 /\ lg = [said |-> S(t).late] @@ New(Groups(t))
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, i)))
         /\ lg' = Next1(t, i) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i, lg>>
===========================================================================
