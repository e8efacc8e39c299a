-------------------------- MODULE VarHistTrace --------------------------
(* Conformance of recorded operations on variables with VarHist.           *)
EXTENDS VarHist, TraceLib
VARIABLES t, i, m
vars == <<t, i, m>>
C(k) == Trace[k].c
SC == 100
V(k) == DOMAIN C(k).vars
State(k) == {x \in V(k) : C(k).vars[x].state}
Init(k) == [v |-> [x \in V(k) |-> Var(C(k).vars[x].h)], locked |-> FALSE]

\* Whole-value operations.
Const(k, x, y) == IF C(k).aff THEN [j \in 1..(3 * C(k).vars[x].nc) |-> IF (j % 3) = 1 THEN y ELSE 0]
                  ELSE [j \in 1..C(k).vars[x].n |-> y]
SetCur(k, s, vals) == [x \in V(k) |-> IF x \in DOMAIN vals /\ x \in State(k)
                                      THEN Assign(s.v[x], 0, vals[x]) ELSE s.v[x]]
Upd(s, x, w) == [s EXCEPT !.v[x] = w]
\* Single variable assignments are refused in a locked state etc.
MayAssign(k, s, e) == /\ e.v \in State(k) => ~s.locked
                      /\ InRange(s.v[e.v], e.s)
                      /\ (Has(e, "short") => ~e.short)
Single == {"data", "dict", "fun", "qp", "const", "initdata", "verts"}
Value(k, e) == CASE e.op = "const" -> Const(k, e.v, e.y)
                 [] e.op = "initdata" -> Const(k, e.v, 0)
                 [] OTHER -> e.x
Next1(k, s, e) ==
  CASE e.op = "init_state" ->
         LET w == [x \in V(k) |-> IF x \notin State(k) THEN s.v[x]
                   ELSE Assign(InitHist(s.v[x]), 0, IF x \in DOMAIN e.val THEN e.val[x]
                                                    ELSE Const(k, x, 0))]
         IN [v |-> w, locked |-> TRUE]
    [] e.op \in {"set_state", "rset", "part"} -> [s EXCEPT !.v = SetCur(k, s, e.val)]
    [] e.op = "fill" -> [s EXCEPT !.v = SetCur(k, s, [x \in State(k) |-> Const(k, x, e.x)])]
    [] e.op \in {"pokevec", "poke"} ->
         Upd(s, e.v, Assign(s.v[e.v], 0, [s.v[e.v].d[1] EXCEPT ![e.j + 1] = e.x]))
    [] e.op \in Single -> IF MayAssign(k, s, e)
                          THEN Upd(s, e.v, Assign(s.v[e.v], e.s, Value(k, e))) ELSE s
    [] e.op = "init_history" -> Upd(s, e.v, InitHist(s.v[e.v]))
    [] e.op = "advance" -> IF e.v \in V(k) THEN Upd(s, e.v, Advance(s.v[e.v], e.ts))
         ELSE [s EXCEPT !.v = [x \in V(k) |-> IF x \in State(k) THEN Advance(s.v[x], e.ts)
                                              ELSE s.v[x]]]
    [] e.op = "dt" -> IF e.v \in V(k) THEN Upd(s, e.v, SetDt(s.v[e.v], e.dn, e.dd))
         ELSE [s EXCEPT !.v = [x \in V(k) |-> SetDt(s.v[x], e.dn, e.dd)]]
    [] OTHER -> s

\* --- reading
Diff(a, b) == [j \in DOMAIN a |-> a[j] - b[j]]
ReadOk(w, s, r) == /\ r.ok = Readable(w, s)
                   /\ r.ok => r.x = Read(w, s)
DerOk(w, s, r) == /\ r.ok = DerReadable(w, s)
                  /\ r.ok => LET q == Diff(Read(w, s), Read(w, s - 1))
                             IN /\ Len(r.x) = Len(q)
                                /\ \A j \in DOMAIN q : w.dn * r.x[j] = 2 * w.dd * q[j]
RegOk(k, x, w, s, r) ==
  /\ r.ok = Readable(w, s)
  /\ r.ok => LET nc == C(k).vars[x].nc
                 nod == Trace[k].nod
             IN r.x = [j \in 1..(Len(nod) * nc) |->
                        Read(w, s)[nod[(j - 1) \div nc + 1] * nc + ((j - 1) % nc) + 1]]

\* --- evaluation of affine functions in quadrature points
\* value of component n (0, ...) at p
At(q, n, p) == q[3 * n + 1] * SC + q[3 * n + 2] * p[1] + q[3 * n + 3] * p[2]
Gx(q, n) == q[3 * n + 2] * SC
Gy(q, n) == q[3 * n + 3] * SC
Rows(e, q, nc, p) ==
  CASE e.mode = "val" -> [n \in 1..nc |-> At(q, n - 1, p)]
    [] e.mode = "grad" -> [n \in 1..(2 * nc) |-> IF n <= nc THEN Gx(q, n - 1)
                                                 ELSE Gy(q, n - nc - 1)]
    [] e.mode = "div" -> <<Gx(q, 0) + Gy(q, 1)>>
    [] e.mode = "cauchy_strain" -> <<Gx(q, 0), Gy(q, 1), Gx(q, 1) + Gy(q, 0)>>
TOL == 24
EvalOk(k, s, e) ==
  LET w == s.v[e.v]
      nc == C(k).vars[e.v].nc
      dn == IF e.dd > 0 THEN e.dn ELSE w.dn
      dd == IF e.dd > 0 THEN e.dd ELSE w.dd
      q == IF e.der THEN Diff(Read(w, e.s), Read(w, e.s - 1)) ELSE Read(w, e.s)
      f == IF e.der THEN dd ELSE 1
      g == IF e.der THEN dn ELSE 1
      geo == Trace[k].geo[e.reg \o "_" \o e.integ]
      nr == Len(Rows(e, q, nc, geo[1]))
  IN IF e.how = "weak"
     THEN LET cs == Trace[k].reg[e.reg]
          IN /\ Len(e.val) = Len(cs) * nc
             /\ \A a \in DOMAIN cs : \A n \in 1..nc :
                  LET cc == Trace[k].cells[cs[a]]
                  IN Abs(g * e.val[(a - 1) * nc + n] - f * cc.a * At(q, n - 1, <<cc.x, cc.y>>))
                     <= TOL * 12
     ELSE /\ Len(e.val) = Len(geo) * nr
          /\ \A a \in DOMAIN geo : LET row == Rows(e, q, nc, geo[a]) IN
               \A n \in 1..nr : Abs(g * e.val[(a - 1) * nr + n] - f * row[n]) <= f * TOL

Clauses(k, s, e) ==
  LET y == Next1(k, s, e) IN
  << <<"assignment refused iff not possible", e.ok = (e.op \in Single => MayAssign(k, s, e))>>,
     <<"values of steps", Has(e, "rd") =>
        \A x \in V(k) : \A j \in DOMAIN e.rd[x] : ReadOk(y.v[x], 1 - j, e.rd[x][j])>>,
     <<"number of steps", Has(e, "rd") => \A x \in V(k) : Len(e.rd[x]) = Len(y.v[x].d) + 1>>,
     <<"time derivative", Has(e, "rd") =>
        \A x \in V(k) : \A j \in DOMAIN e.dr[x] : DerOk(y.v[x], 1 - j, e.dr[x][j])>>,
     <<"values in a region", Has(e, "rd") =>
        \A x \in V(k) : \A j \in DOMAIN e.gs[x] : RegOk(k, x, y.v[x], 1 - j, e.gs[x][j])>>,
     <<"state vector", (Has(e, "rd") /\ y.locked) =>
        e.vec = FlattenSeq([j \in DOMAIN C(k).order |-> y.v[C(k).order[j]].d[1]])>>,
     <<"evaluated data are those of the arguments", e.op = "eval" => EvalOk(k, s, e)>> >>

TInit == t \in 1..NT /\ i = 1 /\ m = Init(t)
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, m, Ev(t, i))))
         /\ m' = Next1(t, m, Ev(t, i)) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
=========================================================================
