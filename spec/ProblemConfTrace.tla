------------------------- MODULE ProblemConfTrace -------------------------
(* Problem descriptions processed by the real code against ProblemConf.    *)
EXTENDS ProblemConf, TraceLib, FiniteSets
VARIABLES t, i
In(x, q) == \E m \in DOMAIN q : q[m] = x
S(k) == Trace[k].scn
Sections == {"regions", "fields", "variables", "ebcs", "epbcs", "lcbcs", "ics", "integrals", "materials", "solvers", "functions"}
RECURSIVE Over(_, _)
Over(root, ovs) == IF ovs = <<>> THEN root ELSE Over(Merge(root, Head(ovs)), Tail(ovs))
\* Options given separately update the options of the override.
Shallow(a, b) == AddKeys([a EXCEPT !.kids = [j \in DOMAIN a.keys |-> IF HasKey(b, a.keys[j]) THEN Val(b, a.keys[j]) ELSE a.kids[j]]], b, 1)
Ovs(k) == LET s == S(k) IN
  IF ~s.cli THEN s.overrides
  ELSE LET ov == s.overrides[1] IN
    IF s.app.keys = <<>> THEN <<ov>>
    ELSE IF HasKey(ov, "options") THEN <<[ov EXCEPT !.kids = [j \in DOMAIN ov.keys |-> IF ov.keys[j] = "options" THEN Shallow(ov.kids[j], s.app) ELSE ov.kids[j]]]>>
    ELSE <<[ov EXCEPT !.keys = Append(@, "options"), !.kids = Append(@, s.app)]>>
Root(k, over) == IF over THEN Over(S(k).root, Ovs(k)) ELSE S(k).root
Expected(root, s, sec) == Defs(root, s.secs, sec, s.words, s.strs)
Plain(defs) == [j \in DOMAIN defs |-> [name |-> defs[j].name, attrs |-> defs[j].attrs]]
Obs(defs) == [j \in DOMAIN defs |-> [name |-> defs[j].name, attrs |-> {defs[j].attrs[m] : m \in DOMAIN defs[j].attrs}]]
Options(root) == IF HasKey(root, "options") THEN LET o == Val(root, "options") IN {<<o.keys[j], o.kids[j]>> : j \in DOMAIN o.keys} ELSE {}
Opts(e) == {e.options[j] : j \in DOMAIN e.options}
SecOk(e, root, s, sec) == e.raised # "" \/ Obs(e.defs[sec]) = Plain(Expected(root, s, sec))
ConfOk(e, root, s) == \A sec \in Sections : Obs(e.defs[sec]) = Plain(Expected(root, s, sec))
Missing(root, s) == {j \in DOMAIN s.required : ~\E q \in DOMAIN root.keys : In(root.keys[q], s.required[j].keys)}
Ints(q) == {q[j] : j \in DOMAIN q}
\* Values of one attribute of a definition.
Attr(defs, name, attr) == (CHOOSE p \in (CHOOSE d \in Rng(defs) : d.name = name).attrs : p[1] = attr)[2]
HasAttr(d, attr) == \E p \in d.attrs : p[1] = attr
AttrOf(d, attr) == (CHOOSE p \in d.attrs : p[1] = attr)[2]
Active(d) == ~HasAttr(d, "times") \/ AttrOf(d, "times").v # "[(5.0, 6.0)]"
OnRegion(defs, reg) == {d \in Rng(defs) : AttrOf(d, "region").v = reg /\ Active(d)}
DofVal(d) == AttrOf(d, "dofs").kids[1].n
\* The solution a + s x at x = j / 4.
Solution(root, s) ==
  LET ebcs == Expected(root, s, "ebcs")
      a == DofVal(CHOOSE d \in OnRegion(ebcs, "'Left'") : TRUE)
      r == OnRegion(ebcs, "'Right'")
      mats == Expected(root, s, "materials")
      c == Val(Attr(mats, "m", "values"), "c").n
      q == Val(Attr(mats, "l", "values"), "q").n
      slope == IF r # {} THEN DofVal(CHOOSE d \in r : TRUE) - a ELSE q \div c
  IN [j \in 1..5 |-> a + (slope * (j - 1)) \div 4]
Kind(s, v) == s.kinds[CHOOSE w \in DOMAIN s.kinds : s.kinds[w][1] = v][2]
Solvers(root, s) == LET d == Expected(root, s, "solvers") IN [j \in DOMAIN d |-> [name |-> d[j].name, kind |-> Kind(s, AttrOf(d[j], "kind").v)]]
\* Unknown names are as if not given.
Chosen(root, s, kind) ==
  LET o == IF HasKey(root, "options") THEN Val(root, "options") ELSE Dict(<<>>, <<>>)
      given == HasKey(o, kind)
      nm == IF ~given THEN "" ELSE IF Val(o, kind).v = "None" THEN "None" ELSE s.strs[CHOOSE w \in DOMAIN s.strs : s.strs[w][1] = Val(o, kind).v][2]
      c == Choose(kind, Solvers(root, s), given, nm)
  IN IF c = "error" THEN Choose(kind, Solvers(root, s), FALSE, "") ELSE c
Clauses(k, j) ==
  LET e == Ev(k, j)
      s == S(k)
  IN CASE e.op = "conf" ->
         LET root == Root(k, e.over)
             miss == Missing(root, s)
         IN << <<"missing_reported", IF miss # {} THEN e.raised = "missing" /\ {n \in DOMAIN s.required : In(s.required[n].name, e.missing)} = miss ELSE e.raised # "missing">>,
               <<"refused_without_reason", e.raised \in {"", "missing"}>>,
               <<"definitions_regions", SecOk(e, root, s, "regions")>>, <<"definitions_fields", SecOk(e, root, s, "fields")>>,
               <<"definitions_variables", SecOk(e, root, s, "variables")>>, <<"definitions_ebcs", SecOk(e, root, s, "ebcs")>>,
               <<"definitions_epbcs", SecOk(e, root, s, "epbcs")>>, <<"definitions_lcbcs", SecOk(e, root, s, "lcbcs")>>,
               <<"definitions_ics", SecOk(e, root, s, "ics")>>, <<"definitions_integrals", SecOk(e, root, s, "integrals")>>,
               <<"definitions_materials", SecOk(e, root, s, "materials")>>, <<"definitions_solvers", SecOk(e, root, s, "solvers")>>,
               <<"definitions_functions", SecOk(e, root, s, "functions")>>,
               <<"options", e.raised # "" \/ Opts(e) = Options(root)>>,
               <<"other_entries_kept", e.raised # "" \/ \A m \in DOMAIN e.junk : HasKey(root, e.junk[m][1]) /\ e.junk[m][2] = Val(root, e.junk[m][1])>>,
               <<"unknown_reported", e.raised # "" \/ {e.left[m] : m \in DOMAIN e.left} = {s.unknown[m] : m \in {n \in DOMAIN s.unknown : HasKey(root, s.unknown[n])}}>>,
               <<"user_data_kept", e.kept>> >>
      [] e.op = "pickle" -> << <<"pickled_definitions", ConfOk(e, Root(k, e.over), s) /\ Opts(e) = Options(Root(k, e.over))>> >>
      [] e.op = "edit" -> << <<"edited_definitions", Obs(e.defs) = Plain(Expected(s.edit, s, e.sec))>>, <<"user_data_kept", e.kept>> >>
      [] e.op = "choose" -> << <<"chosen_solvers", LET root == Root(k, TRUE) IN
             /\ e.ls = Chosen(root, s, "ls") /\ e.nls = Chosen(root, s, "nls")
             /\ e.ts = (IF Chosen(root, s, "ts") = "" THEN "no ts" ELSE Chosen(root, s, "ts"))>> >>
      [] e.op = "solve" -> << <<"refused_without_reason", e.raised = "">>, <<"solution", e.raised # "" \/ e.values = Solution(Root(k, TRUE), s)>>,
                              <<"user_data_kept", e.kept>> >>
      [] e.op = "string" -> << <<"parsed_string", e.raised = "" /\ e.tree = s.root>> >>
      [] e.op = "params" -> << <<"solver_parameters", \A m \in DOMAIN s.params : e.missing \/ s.params[m].name = "kind" \/ s.params[m].name = "name"
                                   \/ e.values[m] = Param(s.kwargs, s.conf, s.params[m].default, s.params[m].name)>>,
                               <<"missing_reported", /\ e.missing => \E m \in DOMAIN s.params : s.params[m].required /\ Param(s.kwargs, s.conf, s.params[m].default, s.params[m].name) = None
                                                     \* A None given explicitly may count as missing or not.
                                                     /\ (\E m \in DOMAIN s.params : s.params[m].required /\ Absent(s.kwargs, s.conf, s.params[m])) => e.missing>>,
                               <<"user_data_kept", e.kept>> >>
      [] OTHER -> << >>
TInit == t \in 1..NT /\ i = 1
TNext == i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, i))) /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i>>
===========================================================================
