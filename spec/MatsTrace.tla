----------------------------- MODULE MatsTrace -----------------------------
(* Conformance of material updates and of the data seen by terms.          *)
EXTENDS Mats, TraceLib
VARIABLES t, i, m
vars == <<t, i, m>>
Cf(k) == Trace[k].c
NM(k) == Len(Cf(k).mats)
Cm(k, j) == Cf(k).mats[j]
Init0(k) == [mat |-> [j \in 1..NM(k) |-> Fresh(Cm(k, j))], fx |-> [j \in 1..NM(k) |-> 0],
             log |-> <<>>]
Key(x) == x[2] \o ":" \o ToString(x[3])
KeysOf(k, eqs, j) == IF eqs = 0 THEN {}
   ELSE {Key(x) : x \in {y \in Rng(Cf(k).eqs[eqs]) : y[1] = j - 1}}
Mode(e) == IF e.mode = "normal1" THEN "normal" ELSE e.mode
Extra(s, j) == IF s.fx[j] # 0 THEN s.fx[j] ELSE s.mat[j].extra
Style(k, f) == Cf(k).style[f]
Targets(k, e) == IF e.m < 0 THEN 1..NM(k) ELSE {e.m + 1}
QpCalls(e, j, key) == {q \in Rng(e.calls) : q.mat = j - 1 /\ q.mode = "qp" /\ q.key = key}
SpCalls(e, j) == {q \in Rng(e.calls) : q.mat = j - 1 /\ q.mode = "special"}
UpdM(k, s, e, j) ==
  LET id(key) == IF QpCalls(e, j, key) = {} THEN -999 ELSE (CHOOSE q \in QpCalls(e, j, key) : TRUE).id
      sp == IF Style(k, s.mat[j].fn) < 2 THEN "no"
            ELSE IF SpCalls(e, j) = {} THEN "missing"
            ELSE ToString((CHOOSE q \in SpCalls(e, j) : TRUE).id)
      z == Clear(Cm(k, j), s.mat[j], Mode(e))
      done == {key \in KeysOf(k, e.eqs, j) : \E q \in QpCalls(e, j, key) : q.ok}
  IN IF e.raised = "" THEN Update(Cm(k, j), s.mat[j], Mode(e), KeysOf(k, e.eqs, j), id, sp)
     ELSE \* interrupted: only what was evaluated may be used
       [z EXCEPT !.datas = [x \in DOMAIN z.datas \cup done |-> IF x \in DOMAIN z.datas THEN z.datas[x]
                                                               ELSE id(x)]]
Next1(k, s, e) ==
  LET s1 == [s EXCEPT !.log = @ \o e.calls] j == e.m + 1 IN
  CASE e.op = "upd" -> [s1 EXCEPT !.mat = [l \in 1..NM(k) |-> IF l \in Targets(k, e)
                                           THEN UpdM(k, s, e, l) ELSE @[l]]]
    [] e.op = "reset" -> [s1 EXCEPT !.mat = [l \in 1..NM(k) |-> IF l \in Targets(k, e)
                                           THEN Reset(@[l]) ELSE @[l]]]
    [] e.op = "setfn" -> [s1 EXCEPT !.mat[j] = SetFn(@, e.fn), !.fx[j] = 0]
    [] e.op = "user" -> [s1 EXCEPT !.mat[j] = SetUser(@, [x \in Rng(e.keys) |->
             -(e.id + (CHOOSE l \in 0..(Len(e.keys) - 1) : e.keys[l + 1] = x))])]
    [] e.op = "extra" -> [s1 EXCEPT !.mat[j] = SetExtra(@, e.x)]
    [] e.op = "fextra" -> [s1 EXCEPT !.fx[j] = IF Cm(k, j).typ = "fn" \/ ~s.mat[j].const THEN e.x ELSE 0]
    [] OTHER -> s1
\* --- calls of the functions
CallsOk(k, s, e, j) ==
  LET N == IF e.op = "upd" /\ j \in Targets(k, e) /\ ~s.mat[j].const
           THEN Needed(Cm(k, j), s.mat[j], Mode(e), KeysOf(k, e.eqs, j)) ELSE {}
      S == e.op = "upd" /\ j \in Targets(k, e) /\ ~s.mat[j].const
           /\ NeedsSpecial(Cm(k, j), s.mat[j], Mode(e))
      mine == SelectSeq(e.calls, LAMBDA q : q.mat = j - 1) IN
  [who |-> IF e.op = "upd" /\ e.raised # ""
           THEN /\ \A q \in Rng(mine) : q.mode = "qp" => q.key \in N
                /\ \A a, b \in DOMAIN mine : (a # b) => mine[a].key # mine[b].key
           ELSE
           /\ {q.key : q \in {x \in Rng(mine) : x.mode = "qp"}} = N
           /\ Len(mine) = Cardinality(N) + (IF S THEN 1 ELSE 0)
           /\ Cardinality(SpCalls(e, j)) = (IF S THEN 1 ELSE 0),
   args |-> \A q \in Rng(mine) : q.fn = s.mat[j].fn /\ q.time = e.time /\ q.extra = Extra(s, j) /\ q.ctx]
\* --- values
InReg(x, r) == CASE r = "Omega" -> TRUE [] r = "L" -> x < 20 [] r = "R" -> x > 20
                 [] OTHER -> x > 10 /\ x < 30
ByReg(reg, x) == LET J == {j \in DOMAIN reg : InReg(x, reg[j][1])}
                 IN IF J = {} THEN <<0, 0>> ELSE reg[Max(J)][2]
Vol == [Omega |-> 8, L |-> 4, R |-> 4, M |-> 4, B |-> 4, C |-> 6]
XInt == [Omega |-> 16, L |-> 4, R |-> 12, M |-> 8, B |-> 8, C |-> 8]
FnOf(s, id) == (CHOOSE q \in Rng(s.log) : q.id = id).fn
\* Cells or facets: the x intervals (times 10) they are in, with their volumes.
Strips(r) == [j \in 1..4 |-> LET x == j * 10 - 5 IN
   [x |-> x, v |-> CASE r = "Omega" -> 2 [] r = "L" -> (IF x < 20 THEN 2 ELSE 0)
      [] r = "R" -> (IF x > 20 THEN 2 ELSE 0) [] r = "M" -> (IF x > 10 /\ x < 30 THEN 2 ELSE 0)
      [] r = "B" -> 1 [] OTHER -> (IF j = 1 THEN 3 ELSE 1)]]
RegionOf(key) == CHOOSE r \in DOMAIN Vol : \E o \in 1..9 : key = r \o ":" \o ToString(o)
EvalOf(k, s, j, key) == \* twice the integral of the parameter
  LET id == s.mat[j].datas[key] r == RegionOf(key) c == Cm(k, j) IN
  IF id < 0 THEN <<-(2 * id * Vol[r]), 0>>
  ELSE IF id > 0 THEN <<2 * (id * Vol[r] + (IF Style(k, FnOf(s, id)) % 2 = 1 THEN 0 ELSE XInt[r])), 0>>
  ELSE IF c.typ = "const" THEN <<2 * c.val[1] * Vol[r], 2 * c.val[2] * Vol[r]>>
  ELSE LET S == Strips(r) IN
    [l \in 1..2 |-> 2 * SumSeq([q \in 1..4 |-> S[q].v * ByReg(c.reg, S[q].x)[l]])]
GetOk(k, s, e, key) ==
  LET j == e.m + 1 id == s.mat[j].datas[key] c == Cm(k, j) IN
  IF id < 0 THEN Rng(e.plain) = {<<-id, 0>>}
  ELSE IF id > 0 THEN IF Style(k, FnOf(s, id)) % 2 = 1 THEN Rng(e.plain) = {<<id, 0>>} /\ e.qpconst
                      ELSE e.full /\ e.spread /\ Rng(e.minus) = {<<id, 0>>}
  ELSE IF c.typ = "const" THEN Rng(e.plain) = {c.val} /\ e.qpconst
  ELSE e.full /\ e.qpconst /\ \A l \in DOMAIN e.plain : e.plain[l] = ByReg(c.reg, e.xc[l])
\* Requested data: 1 present, 0 absent.
Present(k, s, e) == LET j == e.m + 1 x == s.mat[j] IN
  CASE e.name = "flag" -> IF x.const THEN x.sp # "no" /\ Cm(k, j).typ = "const" ELSE x.sp # "no"
    [] e.name = "const" -> x.sc /\ x.const
    [] OTHER -> e.key \in DOMAIN x.datas /\ (e.name = "val" \/ x.datas[e.key] >= 0)
FlagOk(k, s, e) == LET j == e.m + 1 x == s.mat[j] IN
  IF e.name = "const" THEN e.got = <<Cm(k, j).val>>
  ELSE IF x.const THEN e.got = <<<<77, 0>>>> ELSE ToString(e.got[1][1]) = x.sp
Clauses(k, s, e) ==
  LET y == Next1(k, s, e) IN
  << <<"operation accepted", e.op \notin {"get", "eval"} =>
          (e.raised = "" \/ (e.op = "upd" /\ \E q \in Rng(e.calls) : ~q.ok))>>,
     <<"functions called for the needed keys only, once", \A j \in 1..NM(k) : CallsOk(k, s, e, j).who>>,
     <<"functions called with the current state", \A j \in 1..NM(k) : CallsOk(k, s, e, j).args>>,
     <<"data available iff evaluated", e.op = "get" => (e.raised = "") = Present(k, s, e)>>,
     <<"data of the right call", (e.op = "get" /\ e.raised = "" /\ Present(k, s, e)) =>
         IF e.name \in {"flag", "const"} THEN FlagOk(k, s, e)
         ELSE GetOk(k, s, e, e.key)>>,
     <<"data seen by a term", e.op = "eval" =>
         LET x == Cf(k).eqs[e.eqs][e.term + 1] j == x[1] + 1 IN
         IF Key(x) \in DOMAIN s.mat[j].datas THEN e.raised = "" /\ e.value = EvalOf(k, s, j, Key(x))
         ELSE e.raised # "">> >>
TInit == t \in 1..NT /\ i = 1 /\ m = Init0(t)
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, m, Ev(t, i))))
         /\ m' = Next1(t, m, Ev(t, i)) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
=========================================================================
