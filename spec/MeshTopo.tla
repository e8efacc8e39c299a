---------------------------- MODULE MeshTopo ----------------------------
(* Mesh topology: entities of a mesh given by its cells, and the incidence *)
(* relations between them.  M: [tdim, nv, desc, cells, ent, crd] where     *)
(* ent[d] numbers the entities of dimension d (vertex lists).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, MeshRef

LOCAL R(s) == {s[k] : k \in DOMAIN s}
NE(M, d) == IF d = 0 THEN M.nv ELSE IF d = M.tdim THEN Len(M.cells) ELSE Len(M.ent[d])
EIds(M, d) == 0..(NE(M, d) - 1)
EV(M, d, e) == IF d = 0 THEN {e}
               ELSE IF d = M.tdim THEN R(M.cells[e + 1]) ELSE R(M.ent[d][e + 1])

\* All the distinct local entities of dimension d, as vertex sets.
AllEnts(M, d) == UNION {R(CellEnts(M.desc[c], M.tdim, M.cells[c], d))
                        : c \in DOMAIN M.cells}
\* The numbering names each entity exactly once.
Numbering(M, d) ==
  /\ \A e, f \in EIds(M, d) : EV(M, d, e) = EV(M, d, f) => e = f
  /\ {EV(M, d, e) : e \in EIds(M, d)} = AllEnts(M, d)
\* The vertex list is the list of a cell's local entity.
ListedAsLocal(M, d) ==
  \A e \in EIds(M, d) : \E c \in DOMAIN M.cells :
     LET re == RefEnts(M.desc[c], M.tdim, d) IN
     \E k \in DOMAIN re :
        LET lst == [j \in DOMAIN re[k] |-> M.cells[c][re[k][j] + 1]]
            obs == M.ent[d][e + 1] IN
        \/ obs = lst
        \* Degenerate quadrilaterals repeat one vertex.
        \/ /\ Len(obs) = Len(lst) + 1 /\ R(obs) = R(lst)

\* Incidence d1 -> d2.
Inc(M, d1, e, d2) ==
  IF d1 = d2
  THEN IF d1 = 0
       THEN {f \in EIds(M, 0) : f # e /\ \E c \in EIds(M, M.tdim) :
                                        {e, f} \subseteq EV(M, M.tdim, c)}
       ELSE {f \in EIds(M, d1) : f # e /\ EV(M, d1, e) \cap EV(M, d1, f) # {}}
  ELSE IF d1 > d2 THEN {f \in EIds(M, d2) : EV(M, d2, f) \subseteq EV(M, d1, e)}
  ELSE {f \in EIds(M, d2) : EV(M, d1, e) \subseteq EV(M, d2, f)}

CompleteT(M, d, E, dE) ==
  IF E = {} THEN {}
  ELSE {e \in EIds(M, d) : Inc(M, d, e, dE) \subseteq E}

SurfaceFacets(M) == {f \in EIds(M, M.tdim - 1) :
                       Cardinality(Inc(M, M.tdim - 1, f, M.tdim)) = 1}
\* Local number of facet/edge e of dimension d in the cell c.
LocalNo(M, d, e, c) ==
  LET le == CellEnts(M.desc[c + 1], M.tdim, M.cells[c + 1], d) IN
  CHOOSE k \in 0..(Len(le) - 1) : le[k + 1] = EV(M, d, e)

----------------------------------------------------------------------------
(* Signed volumes times 6 (3D), 2 (2D), 1 (1D) of cells with integer      *)
(* coordinates and planar faces.                                          *)
V3(a, b) == [k \in 1..3 |-> b[k] - a[k]]
Det3(u, v, w) == u[1]*(v[2]*w[3] - v[3]*w[2]) - u[2]*(v[1]*w[3] - v[3]*w[1])
                 + u[3]*(v[1]*w[2] - v[2]*w[1])
Tet6(a, b, c, d) == Det3(V3(a, b), V3(a, c), V3(a, d))
Tri2(a, b, c) == (b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1])
CellVol(desc, X) ==
  CASE desc = "1_2" -> X[2][1] - X[1][1]
    [] desc = "2_3" -> Tri2(X[1], X[2], X[3])
    [] desc = "2_4" -> Tri2(X[1], X[2], X[3]) + Tri2(X[1], X[3], X[4])
    [] desc = "3_4" -> Tet6(X[1], X[2], X[3], X[4])
    [] desc = "3_6" -> Tet6(X[1], X[2], X[3], X[4]) + Tet6(X[2], X[3], X[4], X[5])
                       + Tet6(X[3], X[4], X[5], X[6])
    [] desc = "3_8" -> Tet6(X[1], X[2], X[3], X[7]) + Tet6(X[1], X[3], X[4], X[7])
                       + Tet6(X[1], X[4], X[8], X[7]) + Tet6(X[1], X[8], X[5], X[7])
                       + Tet6(X[1], X[5], X[6], X[7]) + Tet6(X[1], X[6], X[2], X[7])
VolScale(tdim) == CASE tdim = 1 -> 1 [] tdim = 2 -> 2 [] tdim = 3 -> 6

----------------------------------------------------------------------------
(* Availability of connectivities: what a request creates and a release   *)
(* removes.  st = [avail |-> set of <<d1, d2>>, built |-> set of dims].    *)
RECURSIVE SetupC(_, _, _, _)
BuildE(D, st, d) ==
  LET s1 == IF <<D, D>> \in st.avail THEN st ELSE SetupC(D, st, D, D) IN
  [avail |-> s1.avail \cup {<<D, d>>, <<d, 0>>}, built |-> s1.built \cup {d}]
SetupC(D, st, d1, d2) ==
  LET s1 == IF d1 \in st.built THEN st ELSE BuildE(D, st, d1)
      s2 == IF d2 \in s1.built THEN s1 ELSE BuildE(D, s1, d2) IN
  IF <<d1, d2>> \in s2.avail THEN s2
  ELSE IF d1 < d2
  THEN LET s3 == SetupC(D, s2, d2, d1) IN [s3 EXCEPT !.avail = @ \cup {<<d1, d2>>}]
  ELSE LET d3 == IF d1 = 0 /\ d2 = 0 THEN D ELSE 0
           s3 == SetupC(D, s2, d1, d3)
           s4 == SetupC(D, s3, d3, d2) IN
       [s4 EXCEPT !.avail = @ \cup {<<d1, d2>>}]
FreeC(D, st, d1, d2) ==
  IF <<d1, d2>> \notin st.avail THEN st
  ELSE LET more == IF 0 < d1 /\ d1 < D /\ d2 = 0 THEN {<<D, d1>>}
                   ELSE IF d1 = D /\ 0 < d2 /\ d2 < D THEN {<<d2, 0>>} ELSE {}
           av == st.avail \ ({<<d1, d2>>} \cup more) IN
       [avail |-> av,
        built |-> {0, D} \cup {d \in st.built : <<d, 0>> \in av}]
Fresh(D) == [avail |-> {<<D, 0>>}, built |-> {0, D}]
=========================================================================
