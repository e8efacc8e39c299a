---------------------------- MODULE Region ----------------------------
(* Regions of a finite element domain: the set algebra of selectors.      *)
(*                                                                        *)
(* A mesh M is a record                                                   *)
(*   tdim    topological dimension, nv  number of vertices                *)
(*   ent     <<edges, faces, cells>>: for each dimension 1..tdim the      *)
(*           sequence of the vertex lists of its entities (ids 0-based)   *)
(*   crd     coordinates (integers) of vertices, vg vertex groups         *)
(*   ccen    cell centroid sums, cg cell groups, surf surface facets      *)
(*   sets    named vertex sets                                            *)
(* A region value is [kind, known, ent, empty, err]: ent[d] is the set of *)
(* its entities of dimension d, meaningful for d in known; entities of    *)
(* lower or higher dimension are derived when first needed.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Ran(s) == {s[k] : k \in DOMAIN s}

Dims(M) == 0..M.tdim
Ids(M, d) == IF d = 0 THEN 0..(M.nv - 1) ELSE 0..(Len(M.ent[d]) - 1)
VertsOf(M, d, e) == IF d = 0 THEN {e} ELSE Ran(M.ent[d][e + 1])

(* e of dimension d is incident to the larger entity f of dimension df.   *)
Sub(M, d, e, df, f) == VertsOf(M, d, e) \subseteq VertsOf(M, df, f)

\* Entities of dimension d contained in some entity of E (dimension dE > d).
Incident(M, d, E, dE) ==
  IF d = 0 THEN UNION {VertsOf(M, dE, f) : f \in E}
  ELSE LET VF == {VertsOf(M, dE, f) : f \in E} IN
       {e \in Ids(M, d) : LET v == VertsOf(M, d, e) IN
                          \E w \in VF : v \subseteq w}

\* Entities of dimension d, all of whose sub-entities of dimension dE < d
\* are in E.
Complete(M, d, E, dE) ==
  IF E = {} THEN {}
  ELSE IF dE = 0 THEN {e \in Ids(M, d) : VertsOf(M, d, e) \subseteq E}
  ELSE {e \in Ids(M, d) :
          \A f \in Ids(M, dE) : Sub(M, dE, f, d, e) => f \in E}

----------------------------------------------------------------------------
(* Kinds.                                                                  *)
FacetKind(M) == IF M.tdim = 1 THEN "vertex" ELSE IF M.tdim = 2 THEN "edge"
                ELSE "face"
\* 'facet' is the entity of dimension tdim - 1.
TrueKind(M, k) ==
  IF k = "facet" THEN FacetKind(M)
  ELSE IF k = "facet_only"
       THEN (IF M.tdim = 1 THEN "vertex_only" ELSE IF M.tdim = 2 THEN "edge_only"
             ELSE "face_only")
  ELSE k
BaseDim(M, tk) == CASE tk \in {"vertex", "vertex_only"} -> 0
                    [] tk \in {"edge", "edge_only"} -> 1
                    [] tk \in {"face", "face_only"} -> 2
                    [] tk \in {"cell", "cell_only"} -> M.tdim
Only(tk) == tk \in {"vertex_only", "edge_only", "face_only", "cell_only"}
KindDim(M, k) == BaseDim(M, TrueKind(M, k))
Can(M, k, d) == LET tk == TrueKind(M, k) IN
                IF Only(tk) THEN d = BaseDim(M, tk) ELSE d <= BaseDim(M, tk)
\* A user names the facet kind of the dimension 'facet' in results.
Canon(M, k) == IF k = FacetKind(M) THEN "facet" ELSE k
ValidKind(M, k) ==
  /\ (k \in {"edge", "edge_only"} => M.tdim >= 2)
  /\ (k \in {"face", "face_only"} => M.tdim = 3)

----------------------------------------------------------------------------
Err == [kind |-> "", known |-> {}, ent |-> <<>>, empty |-> FALSE, err |-> TRUE]
New(M, k) == [kind |-> Canon(M, k),
              known |-> {d \in Dims(M) : ~Can(M, k, d)},
              ent |-> [d \in Dims(M) |-> {}], empty |-> FALSE, err |-> FALSE]

\* Assign the entities of dimension d; refused when the kind has none.
Assign(M, R, d, S) ==
  IF R.err THEN R
  ELSE IF ~Can(M, R.kind, d) THEN Err
  ELSE [R EXCEPT !.known = @ \cup {d}, !.ent[d] = S]

SetKind(M, R, k) ==
  IF R.err THEN R
  ELSE IF Canon(M, k) = R.kind THEN R
  ELSE LET no == {d \in Dims(M) : ~Can(M, k, d)} IN
       [R EXCEPT !.kind = Canon(M, k), !.known = @ \cup no,
                 !.ent = [d \in Dims(M) |-> IF d \in no THEN {} ELSE @[d]]]

\* Derive the entities of dimension d from the highest non-empty ones.
FromHighest(M, R, d, lower, allow) ==
  IF R.err THEN R
  ELSE IF ~Can(M, R.kind, d) THEN R
  ELSE LET ne == {e \in R.known : R.ent[e] # {}} IN
  IF ne = {}
  THEN IF ~(allow \/ R.empty) THEN Err
       ELSE [R EXCEPT !.known = @ \cup {d}, !.empty = TRUE,
                      !.ent[d] = IF d \in R.known THEN @ ELSE {}]
  ELSE LET h == CHOOSE e \in ne : \A f \in ne : f <= e IN
       IF h <= d
       THEN IF ~(lower \/ allow) THEN Err
            ELSE IF lower
                 THEN [R EXCEPT !.known = @ \cup {d},
                                !.ent[d] = Complete(M, d, R.ent[h], h)]
                 ELSE LET kd == KindDim(M, R.kind) IN
                      [R EXCEPT !.known = @ \cup 0..(kd - 1), !.empty = TRUE,
                                !.ent = [e \in Dims(M) |->
                                         IF e < kd THEN {} ELSE @[e]]]
       ELSE [R EXCEPT !.known = @ \cup {d},
                      !.ent[d] = Incident(M, d, R.ent[h], h)]

\* Make the entities of dimension d available.  fuel bounds the derivation:
\* a region with nothing to derive from is refused.
RECURSIVE Acc(_, _, _, _)
Acc(M, R, d, fuel) ==
  IF R.err THEN R
  ELSE IF d \in R.known THEN R
  ELSE IF fuel = 0 THEN Err
  ELSE IF d = 0 THEN FromHighest(M, Acc(M, R, 1, fuel - 1), 0, TRUE, FALSE)
  ELSE IF d = M.tdim \/ d = KindDim(M, R.kind)
       THEN LET Q == Acc(M, R, 0, fuel - 1) IN
            IF Q.err THEN Q
            ELSE [Q EXCEPT !.known = @ \cup {d},
                           !.ent[d] = Complete(M, d, Q.ent[0], 0)]
  ELSE FromHighest(M, Acc(M, R, d + 1, fuel - 1), d, TRUE, FALSE)
Access(M, R, d) == Acc(M, R, d, 12)

RECURSIVE FinLower(_, _, _, _)
FinLower(M, R, d, allow) ==
  IF R.err \/ d < 0 THEN R
  ELSE FinLower(M, IF Can(M, R.kind, d) /\ d \in R.known
                   THEN FromHighest(M, R, d, FALSE, allow) ELSE R,
                d - 1, allow)

\* The final region: its kind entities, everything lower regenerated.
Finalize(M, R, allow) ==
  IF R.err THEN R
  ELSE LET kd == KindDim(M, R.kind)
           Q == Access(M, R, kd) IN
       IF Q.err THEN Q
       ELSE LET e == Q.ent[kd] = {} IN
            IF e /\ ~allow THEN Err
            ELSE FinLower(M, IF allow THEN [Q EXCEPT !.empty = e] ELSE Q,
                          kd - 1, allow)

RECURSIVE AccAll(_, _, _)
AccAll(M, R, ds) == IF ds = <<>> \/ R.err THEN R
                    ELSE AccAll(M, Access(M, R, Head(ds)), Tail(ds))
Full(M, R) == AccAll(M, R, IF M.tdim = 1 THEN <<0, 1>>
                           ELSE IF M.tdim = 2 THEN <<0, 2, 1>>
                           ELSE <<0, 3, 1, 2>>)

----------------------------------------------------------------------------
(* Selector tokens: "(", ")", "+v" ... "*s", or a leaf record.  All the   *)
(* operators have equal precedence and group to the right.                *)
OpDim(M, o) == CASE o = "v" -> 0 [] o = "e" -> 1 [] o = "f" -> 2
                 [] o = "c" -> M.tdim [] o = "s" -> M.tdim - 1
OpValid(M, o) == (o = "e" => M.tdim >= 2) /\ (o = "f" => M.tdim = 3)
SetOp(op, A, B) == CASE op = "+" -> A \cup B [] op = "-" -> A \ B
                     [] op = "*" -> A \cap B

Apply(M, op, o, A, B) ==
  IF A.err \/ B.err \/ ~OpValid(M, o) THEN Err
  ELSE LET d == OpDim(M, o)
           A2 == Access(M, A, d)
           B2 == Access(M, B, d) IN
       IF A2.err \/ B2.err THEN Err
       ELSE Assign(M, New(M, A.kind), d, SetOp(op, A2.ent[d], B2.ent[d]))

\* Relations over coordinates: reverse Polish <<"&">>, <<"|">> or
\* <<axis, relop, value>>.
RelOk(c, r) == LET x == c[r.ax] IN
  CASE r.op = "<" -> x < r.val [] r.op = ">" -> x > r.val
    [] r.op = "<=" -> x <= r.val [] r.op = ">=" -> x >= r.val
    [] r.op = "==" -> x = r.val [] r.op = "!=" -> x # r.val
RECURSIVE RPN(_, _, _)
RPN(c, toks, st) ==
  IF toks = <<>> THEN st[1]
  ELSE LET h == Head(toks) IN
       IF h.op = "&" THEN RPN(c, Tail(toks), <<st[1] /\ st[2]>> \o SubSeq(st, 3, Len(st)))
       ELSE IF h.op = "|" THEN RPN(c, Tail(toks), <<st[1] \/ st[2]>> \o SubSeq(st, 3, Len(st)))
       ELSE RPN(c, Tail(toks), <<RelOk(c, h)>> \o st)

Leaf(M, regs, lf) ==
  LET V(S) == Assign(M, New(M, "cell"), 0, S)
      C(S) == Assign(M, New(M, "cell"), M.tdim, S) IN
  CASE lf.k = "all" -> V(Ids(M, 0))
    [] lf.k = "surf" -> Assign(M, SetKind(M, New(M, "cell"), "facet"),
                               M.tdim - 1,
                               Ran(M.surf))
    [] lf.k = "vgroup" -> V({v \in Ids(M, 0) : M.vg[v + 1] = lf.n})
    [] lf.k = "cgroup" -> LET S == {c \in Ids(M, M.tdim) : M.cg[c + 1] = lf.n} IN
                          IF S = {} THEN Err ELSE C(S)
    [] lf.k = "vset" -> IF lf.name \in DOMAIN M.sets THEN V(Ran(M.sets[lf.name]))
                        ELSE Err
    [] lf.k \in {"vin", "vby"} -> V({v \in Ids(M, 0) : RPN(M.crd[v + 1], lf.rpn, <<>>)})
    [] lf.k = "cby" -> C({c \in Ids(M, M.tdim) : RPN(M.ccen[c + 1], lf.rpn, <<>>)})
    [] lf.k = "vids" -> V(Ran(lf.ids))
    [] lf.k = "cids" -> C(Ran(lf.ids))
    [] lf.k = "vof" -> IF lf.name \in DOMAIN regs
                       THEN V(IF regs[lf.name].ent[0] = {} THEN {} ELSE {lf.pick})
                       ELSE Err
    [] lf.k = "ref" -> IF lf.name \in DOMAIN regs THEN regs[lf.name] ELSE Err

IsOp(t) == t \in {a \o b : a \in {"+", "-", "*"}, b \in {"v", "e", "f", "c", "s"}}
OpOf(t) == CHOOSE a \in {"+", "-", "*"} : \E b \in {"v", "e", "f", "c", "s"} : t = a \o b
DimOf(t) == CHOOSE b \in {"v", "e", "f", "c", "s"} : \E a \in {"+", "-", "*"} : t = a \o b

\* Expr ::= Atom [Op Expr];  Atom ::= leaf | "(" Expr ")".
\* Tokens are records: [t |-> "(" | ")" | op | "leaf", l |-> leaf].
\* The value is <<region, number of the tokens consumed>>.
RECURSIVE Expr(_, _, _, _)
Atom(M, regs, toks, i) ==
  IF toks[i].t = "("
  THEN LET e == Expr(M, regs, toks, i + 1) IN <<e[1], e[2] + 1>>
  ELSE <<Leaf(M, regs, toks[i].l), i + 1>>
Expr(M, regs, toks, i) ==
  LET a == Atom(M, regs, toks, i) IN
  IF a[2] <= Len(toks) /\ IsOp(toks[a[2]].t)
  THEN LET b == Expr(M, regs, toks, a[2] + 1) IN
       <<Apply(M, OpOf(toks[a[2]].t), DimOf(toks[a[2]].t), a[1], b[1]), b[2]>>
  ELSE a

\* The region created for a selector; a bare reference is the region itself.
Create(M, regs, toks, kind, allow) ==
  IF ~ValidKind(M, kind) THEN Err
  ELSE LET R == Expr(M, regs, toks, 1)[1]
           \* "copy r.X" keeps just the entities of the kind of X.
           C == IF Len(toks) = 1 /\ toks[1].t = "leaf" /\ toks[1].l.k = "ref"
                   /\ ~R.err
                THEN Assign(M, New(M, R.kind), KindDim(M, R.kind),
                            R.ent[KindDim(M, R.kind)])
                ELSE R IN
       Full(M, Finalize(M, SetKind(M, C, kind), allow))

----------------------------------------------------------------------------
(* What every region satisfies, whatever its selector.                    *)
Consistent(M, R) ==
  R.err \/
  LET kd == KindDim(M, R.kind) IN
  /\ \A d \in Dims(M) : d > kd => R.ent[d] = {}
  /\ \A d \in 0..(kd - 1) :
       IF Can(M, R.kind, d) THEN R.ent[d] = Incident(M, d, R.ent[kd], kd)
       ELSE R.ent[d] = {}
  /\ \A d \in Dims(M) : R.ent[d] \subseteq Ids(M, d)

\* Facets of R with the cells they are in (of the parent, when given).
FacetCells(M, R, P) ==
  LET fd == M.tdim - 1 IN
  {<<c, f>> : c \in P, f \in R.ent[fd]} \cap
  {<<c, f>> \in Ids(M, M.tdim) \X Ids(M, fd) : Sub(M, fd, f, M.tdim, c)}
=============================================================================
