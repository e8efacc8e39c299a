--------------------------- MODULE EqMapTrace ---------------------------
(* Conformance of recorded equation mappings, expansions, reductions,      *)
(* applications of boundary and initial conditions with EqMap.             *)
(* Values are in units of 1/Q.                                             *)
EXTENDS EqMap, TraceLib
VARIABLES t, i, m
vars == <<t, i, m>>
Q == 4
C(k) == Trace[k].c
Order(k) == C(k).order
V(k) == Rng(Order(k))
NDof(k, x) == Trace[k].nn[C(k).field[x]] * C(k).nc[x]

\* --- conditions of a variable: the active ones, in key order
IsActive(s, e) == \/ s.tk = "always"
                  \/ s.tk = "i" /\ \E q \in Rng(s.times) : q[1] <= e.time /\ e.time < q[2]
                  \/ s.tk = "p" /\ e.step \in {s.times[j] : j \in 2..Len(s.times)}
\* DOFs of nodes and components, node by node.
DofSeq(k, x, ns, comps) == [j \in 1..(Len(ns) * Len(comps)) |->
   ns[(j - 1) \div Len(comps) + 1] * C(k).nc[x] + comps[((j - 1) % Len(comps)) + 1]]
\* value * Q of component number n (1, ...) at coordinates p (in units 1/Q)
Val(v, n, p, step) ==
  CASE v.k \in {"int", "float"} -> Q * v.v[1]
    [] v.k \in {"list", "array"} -> Q * v.v[n]
    [] OTHER -> Q * v.a + SumSeq([j \in DOMAIN p |-> v.b[j] * p[j]])
                + Q * v.g * (n - 1) + Q * v.h * step
Cond(k, s, step) ==
  IF s.k = "epbc"
  THEN [k |-> "epbc", p |-> FlattenSeq([j \in DOMAIN s.p |-> [n \in DOMAIN s.comps |->
          <<s.p[j][1] * C(k).nc[s.v] + s.comps[n], s.p[j][2] * C(k).nc[s.v] + s.comps2[n]>>]])]
  ELSE LET f == C(k).field[s.v]
           ns == Trace[k].nodes[f][s.region]
           L == Len(s.comps)
       IN [k |-> "ebc", d |-> DofSeq(k, s.v, ns, s.comps),
           v |-> [j \in 1..(Len(ns) * L) |->
                   Val(s.val, ((j - 1) % L) + 1, Trace[k].coors[f][ns[(j - 1) \div L + 1] + 1], step)]]
Singles(k, kinds) == SelectSeq(Trace[k].singles, LAMBDA s : s.k \in kinds)
\* Stable sort by key; essential conditions are listed before periodic ones.
Keys(ss) == {ss[j].key : j \in DOMAIN ss}
ByKey(ss) == LET ks == SetToSortSeq(Keys(ss), <)
             IN FlattenSeq([j \in DOMAIN ks |-> SelectSeq(ss, LAMBDA s : s.key = ks[j])])
Of(k, e, x) ==
  LET ss == SelectSeq(ByKey(Singles(k, {"ebc"}) \o Singles(k, {"epbc"})),
                      LAMBDA s : s.v = x /\ IsActive(s, e))
  IN [j \in DOMAIN ss |-> Cond(k, ss[j], e.step)]

\* --- state of the replay: conditions per variable and the recorded maps
Empty == [c |-> <<>>, maps |-> <<>>, di |-> <<>>]
Next1(k, s, e) == IF e.op # "map" THEN s
  ELSE [c |-> [x \in V(k) |-> Of(k, e, x)], maps |-> e.maps, di |-> e.di, adi |-> e.adi,
        act |-> [x \in V(k) |-> {j \in DOMAIN Trace[k].singles :
                   Trace[k].singles[j].k \in {"ebc", "epbc"} /\ Trace[k].singles[j].v = x
                   /\ IsActive(Trace[k].singles[j], e)}], ao |-> e.active_only]
\* Contiguous disjoint blocks in the order of variables.
Blocks(k, b, size(_)) ==
  LET o == Order(k) IN
  \A j \in DOMAIN o : /\ b[o[j]][2] - b[o[j]][1] = size(o[j])
                      /\ b[o[j]][1] = (IF j = 1 THEN 0 ELSE b[o[j - 1]][2])
Operator(x, mp) ==
  /\ mp.ones /\ Rng(mp.R) = {<<d - 1, mp.eq[d]>> : d \in {j \in DOMAIN mp.eq : mp.eq[j] >= 0}}
  /\ NoDup(mp.R) /\ mp.Rs = <<Len(mp.eq), mp.n>>
\* Active DOF connectivities: component by component in the cell nodes.
Conn(k, x, e, s) ==
  LET mp == e.maps[x]
      nc == C(k).nc[x]
      off == e.adi[x][1]
      P == Rng(mp.ebc)
      slave == [d \in Rng(mp.master) |-> mp.slave[CHOOSE j \in DOMAIN mp.master : mp.master[j] = d]]
      Ent(d, a) == IF e.active_only
                   THEN IF mp.eq[d + 1] >= 0 THEN a = mp.eq[d + 1] + off ELSE a < 0
                   ELSE LET q == IF d \in DOMAIN slave THEN slave[d] ELSE d
                        IN a = IF q \in P THEN -1 - (q + off) ELSE q + off
  IN /\ Len(e.conns[x]) = Len(e.cells[x])
     /\ \A q \in DOMAIN e.cells[x] : LET ns == e.cells[x][q] IN
          /\ Len(e.conns[x][q]) = Len(ns) * nc
          /\ \A n \in 1..nc : \A j \in DOMAIN ns :
               Ent(ns[j] * nc + n - 1, e.conns[x][q][(n - 1) * Len(ns) + j])
MapClauses(k, s, e) ==
  LET y == Next1(k, s, e) IN
  << <<"partition of DOFs", \A x \in V(k) : IsMapping(NDof(k, x), y.c[x], e.maps[x])>>,
     <<"prescribed values", \A x \in V(k) : ValuesOk(y.c[x], e.maps[x])>>,
     <<"numbers of active DOFs", \A x \in V(k) :
        /\ e.maps[x].n = Len(e.maps[x].eqi) /\ e.maps[x].nad = e.maps[x].n
        /\ \A j \in DOMAIN e.maps[x].eqi : e.maps[x].eq[e.maps[x].eqi[j] + 1] = j - 1>>,
     <<"order of variables", e.names = Order(k)>>,
     <<"blocks of variables", Blocks(k, e.di, LAMBDA x : NDof(k, x))>>,
     <<"blocks of active DOFs", Blocks(k, e.adi, LAMBDA x : IF e.active_only THEN e.maps[x].n ELSE NDof(k, x))>>,
     <<"total numbers", e.tot[1] = SumF([x \in V(k) |-> NDof(k, x)])
        /\ e.tot[2] = SumF([x \in V(k) |-> IF e.active_only THEN e.maps[x].n ELSE NDof(k, x)])
        /\ e.shape = <<e.tot[2], e.tot[2]>> >>,
     <<"restriction operator", \A x \in V(k) : Operator(x, e.maps[x])>>,
     <<"DOF connectivities", \A x \in V(k) : Conn(k, x, e, s)>>,
     <<"change of active conditions reported",
        (s # Empty /\ y.act # s.act) => e.changed>> >>

\* --- vectors
\* Value of DOF d of x given values of active DOFs and of prescribed ones.
FullOk(k, s, e) == \A x \in V(k) : LET mp == s.maps[x] o == s.di[x][1] a == s.adi[x][1] IN
   /\ \A d \in 0..(Len(mp.eq) - 1) :
        LET w == e.full[o + d + 1] IN
        IF mp.eq[d + 1] >= 0 THEN w = Q * (1000 + a + mp.eq[d + 1])
        ELSE w = IF e.form = 1 THEN Q * 7
                 ELSE mp.val[CHOOSE j \in DOMAIN mp.ebc : mp.ebc[j] = d]
RedOk(k, s, e) == e.red = [j \in 1..SumF([x \in V(k) |-> s.maps[x].n]) |-> Q * (999 + j)]
FollowOk(k, s, e) == \A x \in V(k) : LET mp == s.maps[x] o == s.di[x][1] a == s.adi[x][1] IN
   \A j \in 1..mp.n :
     e.red[a + j] = SumF([d \in {d \in 0..(Len(mp.eq) - 1) : mp.eq[d + 1] = j - 1} |-> e.x[o + d + 1]])
Pos(k, x) == (CHOOSE j \in DOMAIN Order(k) : Order(k)[j] = x)
ApplyOk(k, s, e) == \A x \in V(k) : LET mp == s.maps[x] o == s.di[x][1]
      P == Rng(mp.ebc) M == Rng(mp.master)
      W(d) == e.x[o + d + 1] IN
   /\ \A j \in DOMAIN mp.ebc : mp.ebc[j] \notin M =>
        W(mp.ebc[j]) = CASE e.form = 1 -> Q * 7 [] e.form = 2 -> Q * (2 + Pos(k, x))
                          [] OTHER -> mp.val[j]
   /\ \A j \in DOMAIN mp.master : W(mp.master[j]) = W(mp.slave[j])
   /\ \A d \in 0..(Len(mp.eq) - 1) : (d \notin P /\ d \notin M) => W(d) = Q * (2000 + o + d)
\* A spoiled constrained DOF must be recognized.
Constrained(k, s, j) == \E x \in V(k) : LET d == j - s.di[x][1] mp == s.maps[x] IN
   /\ 0 <= d /\ d < NDof(k, x)
   /\ d \in Rng(mp.ebc) \cup Rng(mp.master) \cup Rng(mp.slave)
IcOk(k, s, e) == \A x \in V(k) :
  LET ss == SelectSeq(ByKey(Singles(k, {"ic"})), LAMBDA z : z.v = x)
      cs == [j \in DOMAIN ss |-> Cond(k, [ss[j] EXCEPT !.k = "ebc"], 0)]
      G == Given(cs)
  IN \A d \in 0..(NDof(k, x) - 1) :
       e.x[s.di[x][1] + d + 1] = IF d \in G THEN ValueOf(cs, d) ELSE 0
Clauses(k, s, e) ==
  CASE e.op = "map" -> MapClauses(k, s, e)
    [] e.op = "full" -> << <<"expanded vector", FullOk(k, s, e)>>,
                           <<"reduction of an expanded vector", RedOk(k, s, e)>> >>
    [] e.op = "follow" -> << <<"reduction with periodic contributions", FollowOk(k, s, e)>> >>
    [] e.op = "apply" -> << <<"applied conditions", ApplyOk(k, s, e)>>,
                            <<"applied conditions recognized", e.has>>,
                            <<"violated conditions recognized", e.spoiled = Constrained(k, s, e.k)>> >>
    [] e.op = "ic" -> << <<"initial conditions", IcOk(k, s, e)>> >>
    [] OTHER -> <<>>
TInit == t \in 1..NT /\ i = 1 /\ m = Empty
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, m, Ev(t, i))))
         /\ m' = Next1(t, m, Ev(t, i)) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
=========================================================================
