----------------------------- MODULE LocateMC -----------------------------
(* Theorems on the location over small meshes, and the cache of a probe:   *)
(* the remembered answers belong to the actual mesh, points and limit.     *)
EXTENDS Locate, Json, TLC, Randomization
CONSTANTS MaxHist, Broken
VARIABLES cache, last, cur, hist

\* Pairs of cells sharing the edge <<1, 2>>; small images of a lattice.
Lat == {<<x, y>> : x \in 0..2, y \in 0..2}
Tris == {M \in {[dim |-> 2, simplex |-> TRUE, coors |-> <<<<0, 0>>, a, b, c>>, cells |-> <<<<1, 2, 3>>, <<1, 2, 4>>>>] : a \in Lat, b \in Lat, c \in Lat} :
          SDet(M, 1) > 0 /\ SDet(M, 2) < 0}
Quads == {M \in {[dim |-> 2, simplex |-> FALSE, coors |-> <<<<0, 0>>, a, <<a[1] + b[1], a[2] + b[2]>>, b>>, cells |-> <<<<1, 2, 3, 4>>>>] : a \in Lat, b \in Lat} :
           SDet(M, 1) > 0}
Pts == {<<x, y>> : x \in -1..5, y \in -1..5}
Maps(M, c, p) == \A d \in 1..2 : Det(M, c) * (p[d] - 2 * Orig(M, c)[d]) = SumF([k \in 1..2 |-> Num(M, c, p, 2, k) * Vec(M, c, k)[d]])
Location == \A M \in Tris \cup Quads : \A p \in Pts :
  /\ \A c \in DOMAIN M.cells : Maps(M, c, p) /\ (In(M, c, p, 2) => InBall(M, c, p, 2))
  \* A point in a cell is in no other unless on the common boundary.
  /\ M.simplex /\ In(M, 1, p, 2) /\ In(M, 2, p, 2) => \E k \in 1..2 : Num(M, 1, p, 2, k) = 0
  \* Vertices are in their cells.
  /\ \A c \in DOMAIN M.cells : \A k \in DOMAIN M.cells[c] : In(M, c, [d \in 1..2 |-> 2 * M.coors[M.cells[c][k]][d]], 2)
ASSUME Location

Meshes == 0..1
Init == cache = <<>> /\ last = <<>> /\ cur = [pts |-> 0, lim |-> 0] /\ hist = <<>>
Ops == {"at", "probe", "npoint", "limit", "move"}
\* The answer is remembered with what it was computed for.
Key(m) == IF Broken THEN <<cur.pts>> ELSE <<m, cur.pts, cur.lim>>
Probe(m) == LET ans == <<m, cur.pts, cur.lim>>
                hit == cache # <<>> /\ cache.key = Key(m)
            IN /\ last' = [got |-> IF hit THEN cache.ans ELSE ans, want |-> ans]
               /\ cache' = IF hit THEN cache ELSE [key |-> Key(m), ans |-> ans]
               /\ UNCHANGED cur
Do(op, a) ==
  /\ CASE op = "probe" -> Probe(a % 2)
       [] op \in {"npoint", "move"} -> cur' = [cur EXCEPT !.pts = a % 2] /\ UNCHANGED <<cache, last>>
       [] op = "limit" -> cur' = [cur EXCEPT !.lim = a % 2] /\ UNCHANGED <<cache, last>>
       [] OTHER -> UNCHANGED <<cache, last, cur>>
  /\ hist' = Append(hist, [op |-> op, a |-> a])
Next == Len(hist) < MaxHist /\ \E op \in Ops, a \in 0..1 : Do(op, a)
Spec == Init /\ [][Next]_<<cache, last, cur, hist>>
Fresh == last = <<>> \/ last.got = last.want
View == <<cache, last, cur, Len(hist)>>

SimNext == \/ Len(hist) < MaxHist /\ \E k \in {RandomElement((0..9) \ {-Len(hist)})}, a \in {RandomElement((0..999) \ {-Len(hist)})} :
                Do(<<"at", "at", "at", "at", "probe", "probe", "probe", "npoint", "limit", "move">>[k + 1], a)
           \/ Len(hist) = MaxHist /\ UNCHANGED <<cache, last, cur, hist>>
SimSpec == Init /\ [][SimNext]_<<cache, last, cur, hist>>
EmitHist == Len(hist) < MaxHist \/ PrintT(<<"@beh", ToJson(hist)>>)
=========================================================================
