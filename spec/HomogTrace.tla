---------------------------- MODULE HomogTrace ----------------------------
(* Conformance of the homogenization engine.                               *)
EXTENDS Homog, TraceLib
VARIABLES t, i
vars == <<t, i>>
Cf(k) == Trace[k].c
Vols(c) == {"c.Volume_" \o c.volumes[j][1] : j \in DOMAIN c.volumes}
ReqN(c) == {c.reqs[j][1] : j \in DOMAIN c.reqs}
CoefN(c) == {"c." \o c.coefs[j][1] : j \in DOMAIN c.coefs}
Coef(c, n) == CHOOSE x \in Rng(c.coefs) : "c." \o x[1] = n
Req(c, n) == CHOOSE x \in Rng(c.reqs) : x[1] = n
Graph(c) == [n \in ReqN(c) \cup CoefN(c) |-> IF n \in ReqN(c) THEN Req(c, n)[2] ELSE Coef(c, n)[2]]
Goals(c) == IF c.only = <<>> THEN CoefN(c) ELSE {"c." \o c.only[j] : j \in DOMAIN c.only}
IsEval(c, n) == n \in CoefN(c) /\ Coef(c, n)[3] = "eval"
Micros(e) == IF e.n_micro = 0 THEN {-1} ELSE 0..(e.n_micro - 1)
Calls(e, n, u) == {j \in DOMAIN e.log : e.log[j].name = n /\ e.log[j].micro = u}
RECURSIVE Num(_, _, _, _)
Num(c, e, n, u) == IF ~IsEval(c, n) THEN (IF Calls(e, n, u) = {} THEN -1 ELSE e.log[CHOOSE j \in Calls(e, n, u) : TRUE].uid)
  ELSE LET r == Coef(c, n)[2] F[j \in 0..Len(r)] == IF j = 0 THEN 0 ELSE F[j - 1] + j * Num(c, e, r[j], u)
       IN F[Len(r)]
List(c, e, n) == IF e.n_micro = 0 THEN <<Num(c, e, n, -1)>> ELSE [j \in 1..e.n_micro |-> Num(c, e, n, j - 1)]
Volume(e, v) == IF e.n_micro = 0 THEN <<v>> ELSE [j \in 1..e.n_micro |-> v]
Fakes(c, S) == {n \in S : ~IsEval(c, n)}
InputsOk(c, e, r) == LET q == Graph(c)[r.name] IN
  /\ {r.data[j][1] : j \in DOMAIN r.data} = Rng(q)
  /\ \A j \in DOMAIN r.data : r.data[j][2] = Num(c, e, r.data[j][1], r.micro)
  /\ r.name \in CoefN(c) => {<<r.volume[j][1], r.volume[j][2]>> : j \in DOMAIN r.volume} =
                            {<<c.volumes[j][1], c.volumes[j][2]>> : j \in DOMAIN c.volumes}
\* each requirement was computed before (its number is lower)
OrderOk(c, r) == \A j \in DOMAIN r.data : IsEval(c, r.data[j][1]) \/ r.data[j][2] < r.uid
SaveList(c, e, n) == IF e.n_micro = 0 THEN <<"s_" \o n \o e.tag>>
  ELSE [j \in DOMAIN c.store |-> "s_" \o n \o e.tag \o "_000" \o ToString(c.store[j])]
WillSave(c, e, n) == n \in Rng(c.save) /\ (e.n_micro = 0 \/ c.store # <<>>)
Clauses(k, e) == LET c == Cf(k) g == Graph(c) S == Needed(g, Goals(c)) IN
  IF ~Solvable(g, Goals(c)) THEN << <<"refused", e.raised # "" /\ e.log = <<>> >> >>
  ELSE IF e.fail # <<>> /\ e.fail[1] \in S /\ e.fail[2] \in Micros(e) \cup {-1} THEN << <<"failure_reported", e.raised # "">> >>
  ELSE IF e.raised # "" THEN << <<"completes", FALSE>> >>
  ELSE
  << <<"once", \A n \in Fakes(c, S) : \A u \in Micros(e) : Cardinality(Calls(e, n, u)) = 1>>,
     <<"only_needed", Len(e.log) = Cardinality(Fakes(c, S)) * Cardinality(Micros(e))>>,
     <<"inputs", \A j \in DOMAIN e.log : InputsOk(c, e, e.log[j])>>,
     <<"order", \A j \in DOMAIN e.log : OrderOk(c, e.log[j])>>,
     <<"micro_state", \A j \in DOMAIN e.log : e.log[j].coor = IF e.n_micro = 0 THEN -1 ELSE e.log[j].micro + e.base>>,
     <<"coefs", Rng(e.coefs) =
        {<<Coef(c, n)[1], List(c, e, n)>> : n \in {x \in S \cap CoefN(c) : Coef(c, x)[4] # "auxiliary"}}
        \cup {<<"Volume_" \o c.volumes[j][1], Volume(e, c.volumes[j][2])>> : j \in DOMAIN c.volumes}>>,
     <<"deps", Rng(e.deps) = {<<n, List(c, e, n)>> : n \in S \cap ReqN(c)}>>,
     <<"saved", Rng(e.saved) = UNION {{<<n, SaveList(c, e, n)[j]>> : j \in DOMAIN SaveList(c, e, n)} :
                                      n \in {x \in S \cap ReqN(c) : WillSave(c, e, x)}}>>,
     <<"save_names", IF c.filenames THEN e.has_saves /\ Rng(e.saves) =
                       {<<n, SaveList(c, e, n)>> : n \in {x \in S \cap ReqN(c) : WillSave(c, e, x)}}
                     ELSE ~e.has_saves>> >>
TInit == t \in 1..NT /\ i = 1
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, Ev(t, i))))
         /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
===========================================================================
