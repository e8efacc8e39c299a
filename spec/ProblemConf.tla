---------------------------- MODULE ProblemConf ----------------------------
(* Problem descriptions: sections of definitions in the short and the long *)
(* syntax, overrides, and the definitions made of them.                    *)
(*                                                                         *)
(* A tree is [k, v, n, keys, kids]: k = "d": a dictionary with keys and    *)
(* values kids; "t": a tuple; "a": any other value written as v, n is its  *)
(* value if it is an integer.                                              *)
EXTENDS Integers, Sequences
Atom(v) == [k |-> "a", v |-> v, n |-> 0, keys |-> <<>>, kids |-> <<>>]
Dict(keys, kids) == [k |-> "d", v |-> "", n |-> 0, keys |-> keys, kids |-> kids]
HasKey(d, key) == \E j \in DOMAIN d.keys : d.keys[j] = key
Val(d, key) == d.kids[CHOOSE j \in DOMAIN d.keys : d.keys[j] = key]
\* The values of b take precedence; dictionaries are merged, also in tuples.
RECURSIVE Merge(_, _), AddKeys(_, _, _)
AddKeys(d, b, j) ==
  IF j > Len(b.keys) THEN d
  ELSE IF HasKey(d, b.keys[j]) THEN AddKeys(d, b, j + 1)
  ELSE AddKeys([d EXCEPT !.keys = Append(@, b.keys[j]), !.kids = Append(@, b.kids[j])], b, j + 1)
Merge(a, b) ==
  CASE a.k = "d" /\ b.k = "d" ->
         AddKeys([a EXCEPT !.kids = [j \in DOMAIN a.keys |-> IF HasKey(b, a.keys[j]) THEN Merge(a.kids[j], Val(b, a.keys[j])) ELSE a.kids[j]]], b, 1)
    [] a.k = "t" /\ b.k = "t" ->
         [b EXCEPT !.kids = [j \in DOMAIN b.kids |-> IF j <= Len(a.kids) /\ b.kids[j].k = "d" /\ a.kids[j].k = "d" THEN Merge(a.kids[j], b.kids[j]) ELSE b.kids[j]]]
    [] OTHER -> b
\* The names of the values of tuples.
Zip(order, kids) == [j \in 1..(IF Len(kids) < Len(order) THEN Len(kids) ELSE Len(order)) |-> <<order[j], kids[j]>>]
None == Atom("None")
StdType(t) == IF t = Atom("'real'") THEN Atom("nm.float64") ELSE IF t = Atom("'complex'") THEN Atom("nm.complex128") ELSE t
\* words: the first words of the strings, [v |-> kind word].
First(words, v) == IF \E w \in DOMAIN words : words[w][1] = v THEN words[CHOOSE w \in DOMAIN words : words[w][1] = v][2] ELSE ""
Tail3(kids, j) == [k |-> "t", v |-> "", n |-> 0, keys |-> <<>>, kids |-> SubSeq(kids, j, Len(kids))]
IsStr(t, words) == t.k = "a" /\ \E w \in DOMAIN words : words[w][1] = t.v
Short(sec, t, words) ==
  LET N == Len(t.kids)
      Z(order) == Zip(order, t.kids)
  IN CASE sec = "regions" /\ t.k = "a" -> <<<<"select", t>>>>
       [] sec = "regions" -> Z(IF N = 4 THEN <<"select", "kind", "parent", "extra_options">> ELSE <<"select", "kind", "parent">>)
       [] sec = "fields" -> [j \in DOMAIN Z(<<"dtype", "shape", "region", "approx_order", "space", "poly_space_basis">>) |->
                              IF j = 1 THEN <<"dtype", StdType(t.kids[1])>> ELSE Z(<<"dtype", "shape", "region", "approx_order", "space", "poly_space_basis">>)[j]]
       [] sec = "variables" -> Z(<<"kind", "field">>)
            \o (IF N < 3 THEN <<>>
                ELSE LET w == First(words, t.kids[1].v) IN
                  CASE w = "unknown" -> <<<<"order", t.kids[3]>>>>
                    [] w = "test" -> <<<<"dual", t.kids[3]>>>>
                    [] w = "parameter" -> IF IsStr(t.kids[3], words) \/ t.kids[3] = None THEN <<<<"like", t.kids[3]>>>> ELSE <<<<"like", None>>, <<"special", t.kids[3]>>>>)
            \o (IF N = 4 THEN <<<<"history", t.kids[4]>>>> ELSE <<>>)
       [] sec \in {"ebcs", "ics"} -> IF N = 2 THEN Z(<<"region", "dofs">>) ELSE Z(<<"region", "times", "dofs">>)
       [] sec = "epbcs" -> IF N = 3 THEN Z(<<"region", "dofs", "match">>) ELSE Z(<<"region", "times", "dofs", "match">>)
       [] sec = "lcbcs" -> IF t.kids[2].k = "d" THEN Z(<<"region", "dofs", "dof_map_fun", "kind">>) \o <<<<"arguments", Tail3(t.kids, 5)>>>>
                           ELSE Z(<<"region", "times", "dofs", "dof_map_fun", "kind">>) \o <<<<"arguments", Tail3(t.kids, 6)>>>>
       [] sec = "integrals" -> IF t.k = "a" THEN <<<<"order", t>>>> ELSE IF N = 2 THEN <<<<"order", t.kids[2]>>>> ELSE Z(<<"order", "vals", "weights">>)
       [] sec = "materials" -> IF t.k = "a" THEN <<<<"function", t>>>> ELSE Z(IF N = 4 THEN <<"values", "function", "kind", "flags">> ELSE <<"values", "function", "kind">>)
       [] sec = "solvers" -> <<<<"kind", t.kids[1]>>>> \o (IF N < 2 THEN <<>> ELSE [j \in DOMAIN t.kids[2].keys |-> <<t.kids[2].keys[j], t.kids[2].kids[j]>>])
       [] sec = "functions" -> Z(<<"function">>)
Default(attrs, name, val) == IF \E j \in DOMAIN attrs : attrs[j][1] = name THEN attrs ELSE Append(attrs, <<name, val>>)
Long(sec, t) ==
  LET all == [j \in DOMAIN t.keys |-> <<t.keys[j], t.kids[j]>>]
      attrs == SelectSeq(all, LAMBDA a : a[1] # "name")
  IN CASE sec = "fields" -> LET at == Default(attrs, "dtype", Atom("nm.float64")) IN [j \in DOMAIN at |-> IF at[j][1] = "dtype" THEN <<"dtype", StdType(at[j][2])>> ELSE at[j]]
       [] sec = "lcbcs" -> Default(Default(attrs, "dof_map_fun", None), "arguments", [k |-> "t", v |-> "", n |-> 0, keys |-> <<>>, kids |-> <<>>])
       [] OTHER -> attrs
Set(attrs) == {attrs[j] : j \in DOMAIN attrs}
\* A definition: name, attributes; secs: <<key of the description, section>> of the long definitions.
LongKeys(root, secs, sec) == SelectSeq(root.keys, LAMBDA q : \E w \in DOMAIN secs : secs[w][1] = q /\ secs[w][2] = sec)
LongName(t, strs) == strs[CHOOSE w \in DOMAIN strs : strs[w][1] = Val(t, "name").v][2]
\* Long definitions with the same name: the later one is valid.
RECURSIVE PutDef(_, _, _)
PutDef(defs, d, j) == IF j > Len(defs) THEN Append(defs, d) ELSE IF defs[j].name = d.name /\ defs[j].long THEN [defs EXCEPT ![j] = d] ELSE PutDef(defs, d, j + 1)
RECURSIVE AddLong(_, _, _, _, _)
AddLong(defs, root, keys, sec, strs) ==
  IF keys = <<>> THEN defs
  ELSE LET t == Val(root, Head(keys))
       IN AddLong(PutDef(defs, [name |-> LongName(t, strs), attrs |-> Set(Long(sec, t)), long |-> TRUE], 1), root, Tail(keys), sec, strs)
Defs(root, secs, sec, words, strs) ==
  LET shorts == IF HasKey(root, sec) THEN Val(root, sec) ELSE Dict(<<>>, <<>>)
      sd == [j \in DOMAIN shorts.keys |->
               IF shorts.kids[j].k = "d" THEN [name |-> LongName(shorts.kids[j], strs), attrs |-> Set(Long(sec, shorts.kids[j])), long |-> TRUE]
               ELSE [name |-> shorts.keys[j], attrs |-> Set(Short(sec, shorts.kids[j], words)), long |-> FALSE]]
  IN AddLong(sd, root, LongKeys(root, secs, sec), sec, strs)
\* The solver of a kind, solvers: <<[name, kind]>>, kinds by their prefix.
FirstOf(q, P(_)) == LET idx == {j \in DOMAIN q : P(q[j])} IN IF idx = {} THEN "" ELSE q[CHOOSE j \in idx : \A m \in idx : j <= m].name
Choose(kind, solvers, given, name) ==
  IF given THEN (IF name = "None" THEN "" ELSE IF \E j \in DOMAIN solvers : solvers[j].name = name THEN name ELSE "error")
  ELSE LET named == FirstOf(solvers, LAMBDA s : s.kind = kind /\ s.name = kind) IN IF named # "" THEN named ELSE FirstOf(solvers, LAMBDA s : s.kind = kind)
\* A parameter of a solver.
Param(kwargs, conf, default, name) == IF HasKey(kwargs, name) THEN Val(kwargs, name) ELSE IF HasKey(conf, name) THEN Val(conf, name) ELSE default
\* A required parameter given nowhere, without a default.
Absent(kwargs, conf, p) == ~HasKey(kwargs, p.name) /\ ~HasKey(conf, p.name) /\ p.default = None
===========================================================================
