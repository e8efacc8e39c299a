--------------------------- MODULE EqTextTrace ---------------------------
(* Conformance of parsed equations, of their values and of term arithmetic *)
EXTENDS EqText, TraceLib
VARIABLES t, i, m
vars == <<t, i, m>>
Cf(k) == Trace[k].c
Pair(z) == <<z.re, z.im>>
Orders == [i |-> 2, i1 |-> 1, i2b |-> 3, ix |-> 4]
Vol == [Omega |-> 32, Y_1 |-> 16, i |-> 16, a |-> 32, Bottom |-> 8, i1 |-> 8]
\* --- one term
ArgOk(a, b) == /\ a.k = b.k /\ a.n = b.n /\ a.tr = b.tr /\ a.treg = b.treg /\ a.der = b.der
               /\ IF a.k = "mat" THEN a.par = b.par ELSE a.step = b.step
TermOk(x, g) ==
  /\ g.name = x.name /\ g.region = x.region /\ g.mult = Pair(Mult(x))
  /\ IF x.integral \in DOMAIN Orders THEN g.integral = x.integral /\ g.order = Orders[x.integral]
     ELSE ToString(g.order) = x.integral
  /\ Len(g.args) = Len(x.args) /\ \A j \in DOMAIN x.args : ArgOk(x.args[j], g.args[j])
\* A variable used with different histories, derivatives, traces in one term
\* cannot be represented: it must be refused, not evaluated wrongly.
Conflict(x) == \E a, b \in Rng(x.args) : /\ a.k = "var" /\ b.k = "var" /\ a.n = b.n
                  /\ <<a.step, a.der, a.tr, a.treg>> # <<b.step, b.der, b.tr, b.treg>>
ArgName(a) == IF a.k = "mat" THEN a.n ELSE a.n \* plain arguments only
Plain(x) == \A a \in Rng(x.args) : a.k = "mat" \/ (~a.showstep /\ ~a.der /\ ~a.tr)
\* --- values: constant fields, dt = 1/2
ArgVal(k, a) == IF a.k = "mat" THEN Cf(k).mats[a.n][a.par]
                ELSE LET v == Cf(k).values[a.n] l == -a.step
                     IN IF a.der THEN 2 * (v[l + 1] - v[l + 2]) ELSE v[l + 1]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* ev_volume does not depend on its argument.
Integ(k, x) == Vol[x.region] * (IF x.name = "ev_volume" THEN 1
                              ELSE Prod([j \in DOMAIN x.args |-> ArgVal(k, x.args[j])]))
RECURSIVE SumC(_)
SumC(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumC(Tail(s)))
\* --- term arithmetic: the pool holds sequences of <<id, multiplier>>
CMul(a, b) == C((a.re * b.re - a.im * b.im) \div 20, (a.re * b.im + a.im * b.re) \div 20)
By(p, f(_)) == [j \in DOMAIN p |-> [id |-> p[j].id, z |-> f(p[j].z)]]
Neg(p) == By(p, LAMBDA z : Scale(-1, z))
Result(s, e) ==
  CASE e.op = "new" -> <<[id |-> e.id, z |-> C(20, 0)]>>
    [] e.op \in {"add", "append", "iadd"} -> s.pool[e.a + 1] \o s.pool[e.b + 1]
    [] e.op \in {"sub", "isub"} -> s.pool[e.a + 1] \o Neg(s.pool[e.b + 1])
    [] e.op = "neg" -> Neg(s.pool[e.a + 1])
    [] e.op = "pos" -> s.pool[e.a + 1]
    [] OTHER -> By(s.pool[e.a + 1], LAMBDA z : CMul(z, C(e.x[1], e.x[2])))
Next1(k, s, e) ==
  IF e.op \in {"text", "bad", "eqn"} THEN s
  ELSE [pool |-> Append(s.pool, Result(s, e)),
        terms |-> IF e.op = "new" THEN s.terms @@ (e.id :> e.term) ELSE s.terms]
Bag(p) == LET q == [j \in DOMAIN p |-> <<p[j].id, p[j].mult>>]
          IN [x \in Rng(q) |-> Cardinality({j \in DOMAIN q : q[j] = x})]
SpecBag(p) == Bag([j \in DOMAIN p |-> [id |-> p[j].id, mult |-> Pair(p[j].z)]])
Clauses(k, s, e) ==
  CASE e.op = "text" ->
     LET conf == \E x \in Rng(e.terms) : Conflict(x)
         ok == e.raised = "" IN
     << <<"well-formed equation accepted", ok \/ conf>>,
        <<"terms of the equation", (ok /\ ~conf) =>
            /\ Len(e.got) = Len(e.terms)
            /\ \A j \in DOMAIN e.got : TermOk(e.terms[j], e.got[j])>>,
        <<"names of arguments", (ok /\ \A x \in Rng(e.terms) : Plain(x)) =>
            Rng(e.argn) = UNION {{a.n : a \in Rng(x.args)} : x \in Rng(e.terms)}>>,
        <<"equation object", (ok /\ ~conf /\ e.evaluate > 0) =>
            /\ e.reject = "" /\ Len(e.got2) = Len(e.terms)
            /\ \A j \in DOMAIN e.got2 : TermOk(e.terms[j], e.got2[j])>>,
        <<"variable used in two ways evaluated", conf => (~ok \/ e.reject # "")>>,
        <<"value of the equation", (ok /\ ~conf /\ e.evaluate = 2) =>
            e.value = Pair(SumC([j \in DOMAIN e.terms |->
               Scale(Integ(k, e.terms[j]), Mult(e.terms[j]))]))>> >>
    [] e.op = "bad" -> << <<"malformed equation refused", e.raised # "">> >>
    [] e.op = "eqn" ->
     << <<"terms of an equation object", Bag(e.got) = SpecBag(s.pool[e.a + 1])>>,
        <<"value of an equation object", e.value = Pair(SumC(LET p == s.pool[e.a + 1] IN
            [j \in DOMAIN p |-> Scale(Integ(k, s.terms[p[j].id]), p[j].z)]))>> >>
    [] OTHER ->
     LET y == Next1(k, s, e) IN
     << <<"result of term arithmetic", Bag(e.pool[Len(e.pool)]) = SpecBag(y.pool[Len(y.pool)])>>,
        <<"operands unchanged", \A j \in 1..(Len(y.pool) - 1) : Bag(e.pool[j]) = SpecBag(y.pool[j])>> >>
TInit == t \in 1..NT /\ i = 1 /\ m = [pool |-> <<>>, terms |-> <<>>]
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, m, Ev(t, i))))
         /\ m' = Next1(t, m, Ev(t, i)) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
=========================================================================
