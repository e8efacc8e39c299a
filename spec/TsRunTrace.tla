---------------------------- MODULE TsRunTrace ----------------------------
(* Conformance of the runs of a time-dependent problem, with restarts.     *)
EXTENDS TsRun, TraceLib
VARIABLES t, i, m
vars == <<t, i, m>>
Cf(k) == Trace[k].c
\* What a run op starts from, <<state, times before>>.
Kept(s, key) == s[key]
From(k, s, e) == IF e.load # "" THEN
    LET f == s[e.load] r == Resume(Cf(k), f.s, f.times) IN
    [s |-> r, pre |-> IF r.step = f.s.step THEN SubSeq(f.times, 1, Len(f.times) - 1) ELSE f.times]
  ELSE [s |-> Start(Cf(k), IF e.state0 THEN Cf(k).u0 + 640 ELSE Cf(k).u0), pre |-> <<>>]
Exp(k, s, e) == Go(Cf(k), From(k, s, e).s, e.script, e.saving, [log |-> <<>>, ends |-> <<>>])
Times(k, s, e, j) == From(k, s, e).pre \o [l \in 1..j |-> Exp(k, s, e).ends[l].t]
RestartSteps(k, s, e) == LET en == Exp(k, s, e).ends IN
  CASE Cf(k).restart = 0 -> {}
    [] Cf(k).restart = 1 -> {en[j].step : j \in DOMAIN en}
    [] OTHER -> {en[Len(en)].step}
Usable(e) == e.found /\ e.raised = ""
Drop(s, e) == IF e.op = "again" THEN [x \in {y \in DOMAIN s : s[y].dir # e.dir} |-> s[x]] ELSE s
Next1(k, s, e) == IF ~Usable(e) THEN s ELSE
  LET en == Exp(k, s, e).ends
      idx(st) == CHOOSE j \in DOMAIN en : en[j].step = st
      new == {st \in RestartSteps(k, s, e) : e.restarts # <<>> /\ st \in Rng(e.restarts)}
      key(st) == ToString(e.irun) \o ":" \o ToString(st) s1 == Drop(s, e) IN
  [x \in DOMAIN s1 \cup {key(st) : st \in new} |->
     IF \E st \in new : x = key(st)
     THEN LET st == CHOOSE q \in new : x = key(q) IN
          [s |-> en[idx(st)], times |-> Times(k, s, e, idx(st)), dir |-> e.dir]
     ELSE s1[x]]
\* --- clauses
IsPrep(r) == r.e \in {"mat", "ebc"}
Main(e) == SelectSeq(e.log, LAMBDA r : r.e \in {"nls", "hook", "save"})
Proj(q, kind) == SelectSeq(q, LAMBDA r : r.e = kind)
Strip(q, names) == [j \in DOMAIN q |-> [x \in DOMAIN q[j] \cap names |-> q[j][x]]]
\* Before each solution the time-dependent data are set for its time, and not otherwise later.
LastPrep(e, j, kind) == LET P == {l \in 1..(j - 1) : e.log[l].e = kind} IN
  IF P = {} THEN 0 ELSE CHOOSE l \in P : \A q \in P : q <= l
PrepOk(e) == \A j \in DOMAIN e.log : e.log[j].e = "nls" =>
  \A kind \in {"mat", "ebc"} : LET l == LastPrep(e, j, kind) IN l > 0 /\ e.log[l].t = e.log[j].t
                                                              /\ e.log[l].step = e.log[j].step
IcOk(k, e) == LET n == Len(Proj(e.log, "ic")) IN
  /\ e.load # "" \/ n = (IF e.state0 THEN 0 ELSE 1)
  /\ n = 1 => \A j \in DOMAIN e.log : e.log[j].e = "ic" => \A l \in 1..(j - 1) : IsPrep(e.log[l])
RECURSIVE TagFiles(_, _)
TagFiles(q, n) == IF q = <<>> THEN <<>> ELSE
  LET r == Head(q) n1 == IF r.e = "hook" THEN n + 1 ELSE n IN
  (IF r.e = "save" THEN <<[step |-> r.step, t |-> r.t, u |-> r.u, w |-> r.w, z |-> r.z, tag |-> n1]>> ELSE <<>>)
  \o TagFiles(Tail(q), n1)
Files(k, x) == LET q == TagFiles(x.log, 0) c == Cf(k) IN
  IF c.format = "h5" THEN q
  ELSE [j \in DOMAIN q |-> [q[j] EXCEPT !.t = -1, !.step = IF c.ts = "stationary" THEN -1 ELSE @]]
Final(k, x) == LET c == Cf(k) en == x.ends l == Shifted(en[Len(en)]) IN
  [u |-> l.u, w |-> l.w, z |-> Unit * Bound(c, l.t), n |-> 1,
   hist |-> IF c.ts = "stationary" THEN <<>> ELSE <<l.h1, l.h2>>]
Shape == {"e", "step", "t", "cond", "iter"}
Sol(q) == SelectSeq(q, LAMBDA r : r.e = "nls")
Clauses(k, s, e) ==
  IF ~e.found THEN <<>> ELSE
  IF e.raised # "" THEN << <<"completes", FALSE>> >> ELSE
  LET x == Exp(k, s, e) IN
  << <<"order_and_times", Strip(Main(e), Shape) = Strip(x.log, Shape)>>,
    <<"initial_guess", Strip(Sol(Main(e)), {"u", "w"}) = Strip(Sol(x.log), {"u", "w"})>>,
    <<"step_size", Strip(Sol(Main(e)), {"z"}) = Strip(Sol(x.log), {"z"})>>,
    <<"history", Strip(Main(e), {"hist"}) = Strip(x.log, {"hist"})>>,
    <<"hook_state", Strip(Proj(e.log, "hook"), {"u", "w", "z"}) = Strip(Proj(x.log, "hook"), {"u", "w", "z"})>>,
    <<"saved_state", Strip(Proj(e.log, "save"), {"u", "w", "z"}) = Strip(Proj(x.log, "save"), {"u", "w", "z"})>>,
    <<"prepared", PrepOk(e)>>,
    <<"ics_once", IcOk(k, e)>>,
    <<"files", ~e.saving \/ e.files = Files(k, x)>>,
    <<"no_files", e.saving \/ e.files = <<>>>>,
    <<"restart_files", Rng(e.restarts) = RestartSteps(k, s, e)>>,
    <<"final", e.final = Final(k, x)>> >>
TInit == t \in 1..NT /\ i = 1 /\ m = [x \in {} |-> 0]
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, m, Ev(t, i))))
         /\ m' = Next1(t, m, Ev(t, i)) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
===========================================================================
