-------------------------- MODULE TimeStepTrace --------------------------
(* Conformance of recorded stepper calls and solver runs with TimeStep.    *)
EXTENDS TimeStep, TraceLib
VARIABLES t, i, s
vars == <<t, i, s>>
C(k) == Trace[k].c

\* --- direct calls: model state [f, sv] resp. [v, sv]
OpInit(c) == [m |-> IF c.kind = "fixed" THEN FixedInit(c.n, c.h)
                    ELSE VarInit(c.t1, c.h), sv |-> <<>>]
FixedNext(c, x, e) ==
  CASE e.op = "advance" -> [x EXCEPT !.m = FAdvance(@)]
    [] e.op = "set" -> [x EXCEPT !.m = FSetStep(@, e.k)]
    [] e.op = "sub" -> [x EXCEPT !.m = FSub(@, e.dt)]
    [] e.op = "restore" -> [x EXCEPT !.m = FRestore(@)]
    [] e.op = "save" -> [x EXCEPT !.sv = Append(@, x.m)]
    [] e.op = "load" -> [x EXCEPT !.m = FAt(@, x.sv[e.k].step)]
    [] e.op = "iter" -> [x EXCEPT !.m = FAt(@, c.n - 1)]
    [] OTHER -> x
FixedClauses(c, x, e) ==
  LET y == FixedNext(c, x, e).m IN
  << <<"refused", e.ok = (e.op = "set" => FIndex(x.m, e.k) >= 0)>>,
     <<"step", e.step = y.step>>, <<"time", Near(e.time, y.time)>>,
     <<"normalized time", Near(e.nt, y.nt)>>,
     <<"number of steps", e.n = c.n>>,
     <<"equality of steppers", e.op = "eq" => e.eq = (e.a = e.b)>>,
     <<"iterated steps", e.op = "iter" =>
        e.steps = [k \in 1..(c.n - e.k) |-> e.k + k - 1]>>,
     <<"iterated times", e.op = "iter" =>
        /\ Len(e.times) = c.n - e.k
        /\ \A k \in DOMAIN e.times : Near(e.times[k], (e.k + k - 1) * c.h)>>,
     <<"ends at t1", (e.op = "iter" /\ c.n > 1) => e.atend>> >>

VarNext(c, x, e) ==
  CASE e.op = "advance" -> [x EXCEPT !.m = VAdvance(@)]
    [] e.op = "set" -> [x EXCEPT !.m = IF e.k = 0 THEN VReset(@) ELSE @]
    [] e.op = "dt" -> [x EXCEPT !.m = VSetDt(@, e.dt, e.u)]
    [] e.op = "save" -> [x EXCEPT !.sv = Append(@, x.m)]
    [] e.op = "load" -> [x EXCEPT !.m = [x.sv[e.k] EXCEPT !.dt0 = x.m.dt0]]
    [] e.op = "iter" -> [x EXCEPT !.m.times =
          @ \o [k \in 1..(Len(e.times) - 1) |-> VTime(x.m) + k * x.m.dt]]
    [] OTHER -> x
VarClauses(c, x, e) ==
  LET y == VarNext(c, x, e).m IN
  << <<"refused", e.ok = ((e.op = "set" /\ e.k # 0) => (e.k = VStep(x.m) \/ e.k < 0))>>,
     <<"step", e.step = VStep(y)>>, <<"time", Near(e.time, VTime(y))>>,
     <<"time step", Near(e.dt1, y.dt)>>,
     <<"number of steps", e.n = VStep(y) + 1>>,
     <<"normalized time", Near(e.nt, VTime(y))>>,
     <<"iterated steps", e.op = "iter" =>
        e.steps = [k \in 1..Len(e.times) |-> VStep(x.m) + k - 1]>>,
     <<"iterated times", e.op = "iter" =>
        \A k \in DOMAIN e.times : Near(e.times[k], VTime(x.m) + (k - 1) * x.m.dt)>>,
     <<"stops at the first time not before t1", e.op = "iter" =>
        \A k \in DOMAIN e.times :
          (VTime(x.m) + (k - 1) * x.m.dt + TOL >= c.t1) = (k = Len(e.times))>> >>

\* --- solver runs
InitDt(c) == IF c.kind = "seq" THEN c.seq[1] ELSE c.h
RunInit(c) == [ph |-> "pre", step |-> 0, time |-> 0, prev |-> 0, dt |-> c.h,
               wait |-> 0, base |-> c.v0, cand |-> c.v0, ndt |-> InitDt(c),
               ptr |-> 0, snaps |-> <<>>, sols |-> <<>>]
Variable(c) == c.kind \in {"adaptive", "ctrl", "seq"}
Decide(c, x, e) ==
  IF x.step = 0 \/ c.kind = "fixed" THEN [retry |-> FALSE, dt |-> c.h, wait |-> x.wait]
  ELSE IF c.kind = "adaptive" THEN Adapted(c, x.dt, x.wait, e.out)
  ELSE IF c.kind = "ctrl" THEN Controlled(c, x.dt, x.wait, e.en, e.ed)
  ELSE [retry |-> FALSE, wait |-> 0,
        dt |-> IF x.step < Len(c.seq) THEN c.seq[x.step + 1] - x.time ELSE x.dt]
Due(c, x) == CASE c.sched = "all" -> TRUE
               [] c.sched = "times" -> SaveDue(c.times, x.ptr, x.time)
               [] c.sched = "steps" -> x.step \in Rng(c.times)
               [] OTHER -> FALSE
Ends(c, x) == IF Variable(c) THEN x.step > 0 /\ x.time + TOL >= c.t1
              ELSE x.step = c.n - 1
RunNext(c, x, e) ==
  CASE e.op = "pre" -> [x EXCEPT !.ph = "sol", !.time = e.time, !.dt = IF Variable(c) THEN e.dt ELSE @]
    [] e.op = "fun" -> [x EXCEPT !.ph = "post", !.cand = e.vec, !.ndt = InitDt(c)]
    [] e.op = "sol" ->
       LET a == Decide(c, x, e)
           y == [x EXCEPT !.wait = a.wait, !.sols = Append(@, x.step)] IN
       IF a.retry THEN [y EXCEPT !.ph = "pre", !.dt = a.dt, !.time = x.prev + a.dt]
       ELSE [y EXCEPT !.ph = "post", !.cand = e.res,
                      !.ndt = IF x.step = 0 THEN InitDt(c) ELSE a.dt]
    [] e.op = "post" ->
       LET y == [x EXCEPT !.base = e.vec, !.ptr = IF e.saved /\ c.sched = "times" THEN @ + 1 ELSE @,
                          !.snaps = Append(@, [time |-> x.time, dt |-> x.ndt, vec |-> e.vec])]
       IN IF Ends(c, x) THEN [y EXCEPT !.ph = "end"]
          ELSE [y EXCEPT !.ph = "pre", !.step = x.step + 1, !.prev = x.time,
                         !.time = x.time + x.ndt, !.dt = x.ndt]
    [] e.op = "load" ->
       LET k == x.snaps[e.k + 1]
           dt == IF Variable(c) THEN k.dt ELSE c.h IN
       [RunInit(c) EXCEPT !.step = e.k + 1, !.prev = k.time, !.dt = dt,
          !.time = k.time + dt, !.base = k.vec, !.cand = k.vec, !.ndt = dt,
          !.snaps = SubSeq(x.snaps, 1, e.k + 1)]
    [] OTHER -> x
RunClauses(c, x, e) ==
  CASE e.op = "pre" ->
    << <<"preparation out of turn", x.ph = "pre">>,
       <<"step counter", e.step = x.step>>, <<"time", Near(e.time, x.time)>>,
       <<"time step", Variable(c) => Near(e.dt, x.dt)>>,
       <<"previous state", e.vec = x.base>> >>
  [] e.op = "fun" ->
    << <<"residual evaluated out of turn", x.ph = "sol" /\ x.step = 0 /\ c.start = "fun">>,
       <<"previous state", e.vec = x.base>> >>
  [] e.op = "sol" ->
    << <<"solved out of turn", x.ph = "sol" /\ (x.step = 0 => c.start = "sol")>>,
       <<"previous state", e.vec = x.base>>,
       <<"time solved", e.step = x.step /\ Near(e.time, x.time)>> >>
  [] e.op = "post" ->
    << <<"step finished out of turn", x.ph = "post" \/ (x.ph = "sol" /\ x.step = 0 /\ c.start = "none")>>,
       <<"solved state", e.vec = x.cand>>,
       <<"step counter", e.step = x.step>>, <<"time", Near(e.time, x.time)>>,
       <<"save request", e.saved = Due(c, x)>> >>
  [] e.op = "end" ->
    << <<"ended early", x.ph = "end">>, <<"returned state", e.vec = x.base>>,
       <<"number of steps", e.n = x.step + 1>>,
       <<"statistics of steps", e.stats => e.sols = x.sols>> >>
  [] OTHER -> <<>>

TInit == /\ t \in 1..NT /\ i = 1
         /\ s = IF C(t).what = "ops" THEN OpInit(C(t)) ELSE RunInit(C(t))
Clauses(c, x, e) == IF c.what = "ops"
  THEN IF c.kind = "fixed" THEN FixedClauses(c, x, e) ELSE VarClauses(c, x, e)
  ELSE RunClauses(c, x, e)
Upd(c, x, e) == IF c.what = "ops"
  THEN IF c.kind = "fixed" THEN FixedNext(c, x, e) ELSE VarNext(c, x, e)
  ELSE RunNext(c, x, e)
TNext == /\ i <= NEv(t)
         /\ Report(t, i, Bad(Clauses(C(t), s, Ev(t, i))))
         /\ s' = Upd(C(t), s, Ev(t, i))
         /\ i' = i + 1
         /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
=========================================================================
