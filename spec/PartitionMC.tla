--------------------------- MODULE PartitionMC ---------------------------
(* Distribution of DOFs to tasks: interfaces of pairs of tasks are divided *)
(* in any order and in any way, then inner DOFs are taken; numbers and     *)
(* messages with the parts follow.  Values of a vector are assembled by    *)
(* the tasks independently: with overlaps each one inserts what it owns,   *)
(* without them all add.                                                   *)
EXTENDS Partition, Json, TLC, Randomization
CONSTANTS Case, NT, MaxHist, Corners
VARIABLES asg, todo, owned, over, left, vec, hist
vars == <<asg, todo, owned, over, left, vec, hist>>

\* DOFs in vertices and edges; facets are edges (as pairs of vertices).
Quad == [conn |-> <<<<0, 1, 4, 3, 9, 10, 11, 12>>, <<1, 2, 5, 4, 13, 14, 15, 10>>, <<3, 4, 7, 6, 11, 16, 17, 18>>, <<4, 5, 8, 7, 15, 19, 20, 16>>>>,
         facets |-> <<<<{0, 1}, {1, 4}, {3, 4}, {0, 3}>>, <<{1, 2}, {2, 5}, {4, 5}, {1, 4}>>, <<{3, 4}, {4, 7}, {6, 7}, {3, 6}>>, <<{4, 5}, {5, 8}, {7, 8}, {4, 7}>>>>]
Fan == [conn |-> <<<<0, 1, 2, 6, 7, 8>>, <<0, 2, 3, 8, 9, 10>>, <<0, 3, 4, 10, 11, 12>>, <<0, 4, 5, 12, 13, 14>>>>,
        facets |-> <<<<{0, 1}, {1, 2}, {0, 2}>>, <<{0, 2}, {2, 3}, {0, 3}>>, <<{0, 3}, {3, 4}, {0, 4}>>, <<{0, 4}, {4, 5}, {0, 5}>>>>]
\* Two pairs of triangles with a common vertex only, and a separate one.
Bow == [conn |-> <<<<0, 1, 2, 10, 11, 12>>, <<0, 2, 3, 12, 13, 14>>, <<0, 4, 5, 15, 16, 17>>, <<7, 8, 9, 18, 19, 20>>>>,
        facets |-> <<<<{0, 1}, {1, 2}, {0, 2}>>, <<{0, 2}, {2, 3}, {0, 3}>>, <<{0, 4}, {4, 5}, {0, 5}>>, <<{7, 8}, {8, 9}, {7, 9}>>>>]
M == CASE Case = "quad" -> Quad [] Case = "fan" -> Fan [] OTHER -> Bow
NC == Len(M.conn)
All == DofsOf(M.conn, 1..NC)
\* DOFs of a facet: of vertices, and the ones common to the cells.
FDofs(F) == F \cup UNION {{d \in Els(M.conn[c]) \cap Els(M.conn[e]) : d > 8 /\ F \in Els(M.facets[c]) \cap Els(M.facets[e])} :
                          <<c, e>> \in {x \in (1..NC) \X (1..NC) : x[1] # x[2]}}
T == 0..(NT - 1)
Pairs(a) == {x \in T \X T : x[1] < x[2] /\ Interface(a, M.facets, x[1], x[2]) # {}}
Init == /\ asg \in {a \in [1..NC -> T] : Els(a) = T}
        /\ todo = Pairs(asg) /\ owned = [t \in T |-> {}] /\ over = [t \in T |-> {}]
        /\ left = T /\ vec = [d \in All |-> 0] /\ hist = <<>>
Taken == UNION {owned[t] : t \in T}
Free(S) == UNION {FDofs(F) : F \in S} \ Taken
Claim(t, S) == Free(S)
\* The first task takes DOFs of the facets in S, the other one the rest.
Divide == \E x \in todo : \E S \in SUBSET Interface(asg, M.facets, x[1], x[2]) :
            LET I == Interface(asg, M.facets, x[1], x[2])
                A == Free(S)  B == Free(I) \ A
            IN /\ owned' = [owned EXCEPT ![x[1]] = @ \cup A, ![x[2]] = @ \cup B]
               /\ over' = [over EXCEPT ![x[1]] = @ \cup Around(M.conn, A), ![x[2]] = @ \cup Around(M.conn, B)]
               /\ todo' = todo \ {x}
               /\ UNCHANGED <<asg, left, vec, hist>>
\* Vertices common to tasks without a common facet are taken by the first one.
Other(t) == IF Corners THEN {d \in DofsOf(M.conn, CellsOf(asg, t)) : Around(M.conn, {d}) \cap CellsOf(asg, t) # {}} \ Taken
            ELSE Inner(asg, M.conn, t) \ Taken
TakeInner == /\ todo = {} /\ left # {}
             /\ LET tt == Min(left) IN
                /\ owned' = [owned EXCEPT ![tt] = @ \cup Other(tt)]
                /\ over' = [over EXCEPT ![tt] = @ \cup Around(M.conn, Other(tt))]
                /\ left' = left \ {tt}
             /\ UNCHANGED <<asg, todo, vec, hist>>
Next == Divide \/ TakeInner
Spec == Init /\ [][Next]_vars
Done == todo = {} /\ left = {}
Disjoint == \A a, b \in T : a = b \/ owned[a] \cap owned[b] = {}
Owners == Done => OneOwner(owned, All)
Own == OwnDofs(asg, M.conn, owned)
Inners == Done => InnerOwned(asg, M.conn, owned)
Independent == Enough(asg, M.conn, owned, over)
Value(S, d) == FoldSet(LAMBDA c, a : a + Vec(0, c, d), 0, {c \in S : d \in Els(M.conn[c])})
Insert(d) == LET t == CHOOSE t \in T : d \in owned[t] IN Value(CellsOf(asg, t) \cup over[t], d)
Adds(d) == FoldSet(LAMBDA t, a : a + Value(CellsOf(asg, t), d), 0, T)
Lossless == Done => \A d \in All : Insert(d) = Value(1..NC, d) /\ Adds(d) = Value(1..NC, d)
Symmetric == \A a, b \in T : Interface(asg, M.facets, a, b) = Interface(asg, M.facets, b, a)

\* Histories of distributions.
SimInit == Init /\ asg = CHOOSE a \in [1..NC -> T] : Els(a) = T
SimNext == \/ Len(hist) < MaxHist /\ \E k \in {RandomElement((0..5) \ {-Len(hist)})}, n \in {RandomElement((1..5) \ {-Len(hist)})}, a \in {RandomElement((0..9999) \ {-Len(hist)})} :
                hist' = Append(hist, [op |-> <<"part", "facets", "maps", "maps", "asm", "asm">>[k + 1], n |-> n, a |-> a]) /\ UNCHANGED <<asg, todo, owned, over, left, vec>>
           \/ Len(hist) = MaxHist /\ UNCHANGED vars
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) < MaxHist \/ PrintT(<<"@beh", ToJson(hist)>>)
==========================================================================
