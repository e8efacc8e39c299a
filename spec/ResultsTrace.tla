--------------------------- MODULE ResultsTrace ---------------------------
(* Conformance of the readers and writers of multi-step results files.     *)
EXTENDS Results, TraceLib
VARIABLES t, i, m
vars == <<t, i, m>>
\* m: [f: file, lost: the step being written in a crash or -1]
Rec(e) == [t |-> e.t, nt |-> e.t % 65, items |-> e.items]
Next1(s, e) ==
  CASE e.op = "write" /\ ~CanWrite(s.f, e.step) -> s
    [] e.op = "write" /\ e.fail = 0 -> [s EXCEPT !.f = Write(s.f, e.step, Rec(e))]
    [] e.op = "write" /\ e.fail > 0 -> [s EXCEPT !.f = Fail(s.f, e.step)]
    [] e.op = "write" -> [f |-> Fail(s.f, e.step), lost |-> e.step]
    [] e.op = "mesh" -> [s EXCEPT !.f = MeshOnly(s.f, e.step)]
    [] OTHER -> s
IsNum(it) == it.mode # "custom"
MatchItem(r, it) == /\ r.key = it.key /\ r.mode = it.mode
  /\ IF ~IsNum(it) THEN r.id = it.id
     ELSE /\ r.vals = Flat(it, 0) /\ r.shape = Shape(it) /\ r.name = "n" \o ToString(it.id)
          /\ r.dofs = IF it.dofs THEN [d \in 1..it.dim |-> it.key \o "." \o ToString(d - 1)] ELSE <<>>
MatchStep(f, r) == LET x == f.steps[r.step] IN
  /\ r.t = x.t /\ r.nt = x.nt /\ Len(r.items) = Len(x.items)
  /\ \A j \in DOMAIN r.items : \E l \in DOMAIN x.items : MatchItem(r.items[j], x.items[l])
SnapOk(s, p) == LET f == s.f IN
  IF ~f.has THEN ~p.exists \/ s.lost >= 0
  ELSE /\ p.exists /\ ~Has(p, "error") /\ p.same /\ p.none /\ p.mesh = NNod
       /\ [j \in DOMAIN p.steps |-> p.steps[j].step] = Steps(f)
       /\ \A j \in DOMAIN p.steps : MatchStep(f, p.steps[j])
       /\ p.last = f.last
       /\ DOMAIN f.steps = {} \/ p.dts = [j \in DOMAIN p.steps |-> IF j < Len(p.steps) THEN p.steps[j + 1].t - p.steps[j].t ELSE 0]
\* After a crash only the completed steps count.
CrashOk(s, p) == LET f == s.f S == {j \in DOMAIN p.steps : p.steps[j].step # s.lost} IN
  DOMAIN f.steps = {} \/ (p.exists /\ ~Has(p, "error")
     /\ {p.steps[j].step : j \in S} = DOMAIN f.steps /\ \A j \in S : MatchStep(f, p.steps[j]))
InF(f, key) == InAll(f, key) /\ f.steps # <<>> /\ DOMAIN f.steps # {}
ModeOf(f, key) == Item(f, Steps(f)[1], key).mode
SameMode(f, key) == \A x \in DOMAIN f.steps : Item(f, x, key).mode = ModeOf(f, key)
                    /\ Item(f, x, key).dim = Item(f, Steps(f)[1], key).dim
Listed(f, key, idx) == [j \in DOMAIN idx |-> History(f, key, idx[j])]
Usable(f, key) == DOMAIN f.steps # {} /\ InAll(f, key) /\ SameMode(f, key) /\ ModeOf(f, key) \in {"vertex", "cell"}
DescOk(f, d) == /\ d.mode \in {"n", "e"} /\ Usable(f, d.key) /\ (d.mode = "e" \/ ModeOf(f, d.key) = "vertex")
                /\ \A j \in DOMAIN d.idx : d.idx[j] < IF d.mode = "n" THEN NNod ELSE NEl
Cells(f, d) == d.mode = "e" /\ ModeOf(f, d.key) = "vertex"
DescRes(f, d) == [j \in DOMAIN d.idx |->
   IF Cells(f, d) THEN LET c == Conn[d.idx[j] + 1] IN Listed(f, d.key, c)
   ELSE <<History(f, d.key, d.idx[j])>>]
DescAvg(f, d) == [j \in DOMAIN d.idx |-> IF Cells(f, d) THEN SumRows(f, d.key, d.idx[j])
                                         ELSE History(f, d.key, d.idx[j])]
\* --- export
Exports(f, e) == IF e.steps = <<>> THEN {x \in DOMAIN f.steps : x >= e.step0}
  ELSE LET bad == {j \in DOMAIN e.steps : e.steps[j] \notin DOMAIN f.steps} IN
       {e.steps[j] : j \in {l \in DOMAIN e.steps : \A b \in bad : l < b}}
DumpOk(f, e) == /\ {e.res[j].step : j \in DOMAIN e.res} = Exports(f, e)
  /\ \A j \in DOMAIN e.res : LET x == f.steps[e.res[j].step].items r == e.res[j].items IN
       Len(r) = Len(x) /\ \A l \in DOMAIN r : \E q \in DOMAIN x : x[q].key = r[l].key /\ Flat(x[q], 0) = r[l].vals
Dumpable(f) == \A x \in DOMAIN f.steps : \A j \in DOMAIN f.steps[x].items :
   LET it == f.steps[x].items[j] IN it.mode \in {"vertex", "cell"} /\ it.dt # "c" /\ it.dim < 3 /\ it.key # "u x"
Contig(f) == DOMAIN f.steps = 0..(Cardinality(DOMAIN f.steps) - 1)
Clauses(s, e) == LET n == Next1(s, e) f == s.f IN
  << <<"snapshot", IF n.lost >= 0 THEN TRUE ELSE SnapOk(n, e.snap)>>,
     <<"crash", n.lost < 0 \/ CrashOk(n, e.snap)>>,
     <<"crashed", e.op # "write" \/ e.fail >= 0 \/ ~CanWrite(s.f, e.step) \/ e.status = 3>>,
     <<"written", e.op \notin {"write", "mesh"} \/ e.fail # 0 \/
                  IF e.op = "write" /\ ~CanWrite(s.f, e.step) THEN e.raised # "" ELSE e.raised = "">>,
     <<"failed", e.op # "write" \/ e.fail <= 0 \/ e.raised # "">>,
     <<"history", e.op # "hist" \/ s.lost >= 0 \/
        LET st == IF e.step >= 0 THEN e.step ELSE IF DOMAIN f.steps = {} THEN -1 ELSE Steps(f)[1] IN
        IF st \notin DOMAIN f.steps \/ ~HasKey(f, st, e.key) THEN e.raised # ""
        ELSE IF ~Usable(f, e.key) \/ \E j \in DOMAIN e.idx : e.idx[j] >= Rows(Item(f, st, e.key)) THEN TRUE
        ELSE e.raised = "" /\ e.mode = Item(f, st, e.key).mode
             /\ e.res = Listed(f, e.key, e.idx)>>,
     <<"variables", e.op # "vhist" \/ s.lost >= 0 \/
        IF Contig(f) /\ e.n_step = Cardinality(DOMAIN f.steps) /\ DOMAIN f.steps # {} /\ f.last = e.n_step - 1
           /\ \A j \in DOMAIN e.keys : InAll(f, e.keys[j])
        THEN (\E j \in DOMAIN e.keys : \E x \in DOMAIN f.steps : ~IsNum(Item(f, x, e.keys[j]))) \/
             (e.raised = "" /\ e.res = [j \in DOMAIN e.keys |-> [x \in 1..e.n_step |->
                                                                Flat(Item(f, x - 1, e.keys[j]), 0)]])
        ELSE e.raised # "">>,
     <<"extract", e.op # "extract" \/ s.lost >= 0 \/
        IF \A j \in DOMAIN e.desc : DescOk(f, e.desc[j])
        THEN /\ e.raised = "" /\ e.kept /\ e.times = [j \in DOMAIN Steps(f) |-> f.steps[Steps(f)[j]].t]
             /\ e.res = [j \in DOMAIN e.desc |-> DescRes(f, e.desc[j])]
             /\ e.avg = [j \in DOMAIN e.desc |-> DescAvg(f, e.desc[j])]
        ELSE DOMAIN f.steps = {} \/ e.raised # "" \/ (\E j \in DOMAIN e.desc : InAll(f, e.desc[j].key) /\ ~SameMode(f, e.desc[j].key))>>,
     <<"export", e.op # "dump" \/ s.lost >= 0 \/ ~Dumpable(f) \/ DOMAIN f.steps = {} \/
        (e.raised = "" /\ DumpOk(f, e))>> >>
TInit == t \in 1..NT /\ i = 1 /\ m = [f |-> Empty, lost |-> -1]
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(m, Ev(t, i))))
         /\ m' = Next1(m, Ev(t, i)) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
===========================================================================
