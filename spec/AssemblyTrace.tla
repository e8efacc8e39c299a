-------------------------- MODULE AssemblyTrace --------------------------
(* Recorded assembling of systems compared with Assembly.tla.              *)
EXTENDS Assembly, TraceLib
VARIABLES t, i
W1(j) == (j * j * 7 + 3 * j + 1) % 101
W2(j) == (j * 5 + 2) % 17
Clauses(tt, k) ==
  LET e == Ev(tt, k)
      S == e.sys
      Ts == [m \in DOMAIN e.sel |-> Trace[tt].terms[e.sel[m]]]
      Off == IF e.rv = 0 THEN 0 ELSE S[e.rv].off
      Tot == SumSeq([v \in DOMAIN S |-> S[v].n])
      NR == IF e.rv = 0 THEN Tot ELSE S[e.rv].n
  IN CASE e.op = "res" ->
       <<<<"vector size", e.n = NR>>, <<"integers", e.noise < 10>>,
         <<"vector", e.n # NR \/ \A r \in 0..(NR - 1) : e.re[r + 1] = Vec(S, Ts, Off + r, FALSE)>>,
         <<"imaginary vector", e.n # NR \/ IF Trace[tt].cplx THEN \A r \in 0..(NR - 1) : e.im[r + 1] = Vec(S, Ts, Off + r, TRUE)
                               ELSE \A r \in DOMAIN e.im : e.im[r] = 0>>>>
     [] e.op = "mtx" ->
       LET COff == IF e.cv = 0 THEN 0 ELSE S[e.cv].off
           NC == IF e.cv = 0 THEN Tot ELSE S[e.cv].n
           A1(s, j) == IF e.cv = 0 \/ e.cv = s THEN W1(j - COff) ELSE 0
           A2(s, j) == IF e.cv = 0 \/ e.cv = s THEN W2(j - COff) ELSE 0
           ok == e.n = NR /\ e.m = NC
       IN <<<<"matrix size", ok>>, <<"integers", e.noise < 10>>,
            <<"matrix", ~ok \/ \A r \in 0..(NR - 1) : /\ e.re[1][r + 1] = RowSum(S, Ts, Off + r, FALSE, A1)
                                                      /\ e.re[2][r + 1] = RowSum(S, Ts, Off + r, FALSE, A2)>>,
            <<"imaginary matrix", ~ok \/ IF Trace[tt].cplx THEN \A r \in 0..(NR - 1) : /\ e.im[1][r + 1] = RowSum(S, Ts, Off + r, TRUE, A1)
                                                                                       /\ e.im[2][r + 1] = RowSum(S, Ts, Off + r, TRUE, A2)
                                         ELSE \A q \in 1..2 : \A r \in DOMAIN e.im[q] : e.im[q][r] = 0>>,
            <<"stray items", ~ok \/ \A r \in DOMAIN e.nz : e.nz[r] <= Cardinality({j \in Cols(S, Ts, Off + r - 1) : j >= COff /\ j < COff + NC})>>>>
     [] OTHER -> <<>>
GraphClauses(e) == <<<<"graph size", e.n = e.tot /\ e.m = e.tot>>, <<"graph items once", ~e.dup>>, <<"graph of zeros", e.zero>>>>
TInit == t \in 1..NT /\ i = 1
TNext == /\ i <= NEv(t)
         /\ Report(t, i, Bad(IF Ev(t, i).op = "graph" THEN GraphClauses(Ev(t, i)) ELSE IF Ev(t, i).op = "order" THEN <<<<"order of terms", Ev(t, i).ok>>>> ELSE Clauses(t, i)))
         /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i>>
=========================================================================
