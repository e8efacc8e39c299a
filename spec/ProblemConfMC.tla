--------------------------- MODULE ProblemConfMC ---------------------------
EXTENDS ProblemConf, Json, TLC, FiniteSets
CONSTANTS MaxHist, Deep
VARIABLES a, b, c, hist
vars == <<a, b, c, hist>>
T0 == {Atom("1"), Atom("2")}
Tup(kids) == [k |-> "t", v |-> "", n |-> 0, keys |-> <<>>, kids |-> kids]
Dicts(S) == {Dict(<<>>, <<>>)} \cup {Dict(<<q>>, <<s>>) : q \in {"x", "y"}, s \in S} \cup {Dict(<<"x", "y">>, <<s, t>>) : s, t \in S}
Tups(S) == {Tup(<<>>)} \cup {Tup(<<s>>) : s \in S} \cup {Tup(<<s, t>>) : s, t \in S}
S1 == {Dict(<<"x">>, <<Atom("1")>>), Dict(<<"y">>, <<Atom("2")>>)} \cup (IF Deep THEN {Dict(<<"x">>, <<Atom("2")>>)} ELSE {})
T1 == T0 \cup S1 \cup (IF Deep THEN Tups({Atom("1")} \cup S1) ELSE {Tup(<<>>)} \cup {Tup(<<s>>) : s \in S1} \cup {Tup(<<Atom("1"), s>>) : s \in S1 \cup {Atom("2")}})
D2 == Dicts(T1)
Init == a \in D2 /\ b \in D2 /\ c = Atom("") /\ hist = <<>>
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* The values at the ends of paths in dictionaries.
RECURSIVE Leaves(_, _)
Leaves(t, p) == IF t.k = "d" THEN UNION {Leaves(t.kids[j], Append(p, t.keys[j])) : j \in DOMAIN t.keys} ELSE {<<p, t>>}
RECURSIVE Get(_, _)
Has(t, p) == LET RECURSIVE H(_, _)
                 H(u, q) == q = <<>> \/ (u.k = "d" /\ HasKey(u, Head(q)) /\ H(Val(u, Head(q)), Tail(q))) IN H(t, p)
Get(t, p) == IF p = <<>> THEN t ELSE Get(Val(t, Head(p)), Tail(p))
M == Merge(a, b)
NoDupKeys == LET RECURSIVE Ok(_)
                 Ok(t) == (\A i, j \in DOMAIN t.keys : t.keys[i] = t.keys[j] => i = j) /\ \A j \in DOMAIN t.kids : Ok(t.kids[j]) IN Ok(M)
\* The override is valid, nothing else is changed or added.
Wins == \A l \in Leaves(b, <<>>) : Has(M, l[1]) /\ (l[2].k = "a" => Get(M, l[1]) = l[2])
Touched(p) == \E n \in 0..Len(p) : LET q == SubSeq(p, 1, n) IN Has(b, q) /\ Get(b, q).k # "d"
Keeps == \A l \in Leaves(a, <<>>) : ~Touched(l[1]) => (IF Has(b, l[1]) THEN Has(M, l[1]) ELSE Has(M, l[1]) /\ Get(M, l[1]) = l[2])
Nothing == \A l \in Leaves(M, <<>>) : Has(b, l[1]) \/ Has(a, l[1])
Again == Merge(M, b) = M /\ Merge(a, Dict(<<>>, <<>>)) = a /\ Merge(Dict(<<>>, <<>>), b) = b /\ Merge(a, a) = a
\* Both syntaxes define the same.
Orders == [regions |-> <<"select", "kind", "parent", "extra_options">>, fields |-> <<"dtype", "shape", "region", "approx_order", "space", "poly_space_basis">>,
           ebcs |-> <<"region", "times", "dofs">>, epbcs |-> <<"region", "times", "dofs", "match">>, materials |-> <<"values", "function", "kind", "flags">>, functions |-> <<"function">>]
Same == \A sec \in DOMAIN Orders : \A n \in 1..Len(Orders[sec]) : (sec \in {"ebcs", "epbcs"} => n = Len(Orders[sec])) =>
          LET o == SubSeq(Orders[sec], 1, n)
              kids == [j \in 1..n |-> IF j % 2 = 1 THEN (IF sec = "fields" /\ j = 1 THEN Atom("'real'") ELSE a) ELSE b]
          IN Set(Short(sec, Tup(kids), <<>>)) = Set(Long(sec, Dict(<<"name">> \o o, <<Atom("'q'")>> \o kids)))
SimInit == a = Atom("") /\ b = Atom("") /\ c = Atom("") /\ hist = <<>>
SimNext == /\ Len(hist) < MaxHist /\ UNCHANGED <<a, b, c>>
           /\ hist' = Append(hist, [sec |-> RandomElement((0..15) \ {-Len(hist)}), long |-> RandomElement((0..1) \ {-Len(hist)}) = 1, w |-> RandomElement((0..9999) \ {-Len(hist)})])
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) = MaxHist => PrintT(<<"@beh", ToJson(hist)>>)
===========================================================================
