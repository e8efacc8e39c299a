------------------------------ MODULE HomogMC ------------------------------
(* Workers computing the items in any order allowed by the dependencies,   *)
(* with failures, against the recursive evaluation.                        *)
EXTENDS Homog, Json
CONSTANTS Names, NWorkers, MaxHist
VARIABLES g, goals, done, running, count, status, hist
vars == <<g, goals, done, running, count, status, hist>>
Seqs == {<<>>} \cup {<<a>> : a \in Names} \cup {<<a, b>> : a \in Names, b \in Names}
Small == {s \in Seqs : Len(s) < 2 \/ s[1] < s[2]}
Init == /\ g \in [Names -> Small] /\ goals \in {{1}, {1, 2}} /\ done = [n \in {} |-> 0] /\ running = {}
        /\ count = [n \in Names |-> 0] /\ hist = <<>>
        /\ status = (IF Solvable(g, goals) THEN "run" ELSE "refused")
All == Needed(g, goals)
\* A picked item sees the results of its requirements as they are then.
Pick(n) == /\ status = "run" /\ Cardinality(running) < NWorkers /\ n \in All
           /\ n \notin DOMAIN done /\ n \notin {r[1] : r \in running}
           /\ Range(g[n]) \subseteq DOMAIN done
           /\ running' = running \cup {<<n, [k \in DOMAIN g[n] |-> done[g[n][k]]]>>}
           /\ count' = [count EXCEPT ![n] = @ + 1]
           /\ UNCHANGED <<g, goals, done, status, hist>>
Complete(r) == /\ status = "run"
               /\ done' = [x \in DOMAIN done \cup {r[1]} |-> IF x = r[1] THEN <<r[1], r[2]>> ELSE done[x]]
               /\ running' = running \ {r} /\ UNCHANGED <<g, goals, count, hist>>
               /\ status' = (IF DOMAIN done' = All THEN "done" ELSE "run")
Fail(r) == status = "run" /\ status' = "failed" /\ UNCHANGED <<g, goals, done, running, count, hist>>
Next == (\E n \in Names : Pick(n)) \/ (\E r \in running : Complete(r) \/ Fail(r))
Spec == Init /\ [][Next]_vars
RECURSIVE Val(_)
Val(n) == <<n, [k \in DOMAIN g[n] |-> Val(g[n][k])]>>
Once == \A n \in Names : count[n] <= 1 /\ (count[n] = 1 => n \in All)
Same == \A n \in DOMAIN done : done[n] = Val(n)
Full == status = "done" => \A n \in All : count[n] = 1 /\ n \in DOMAIN done
\* There is always something to do.
NoDeadlock == status = "run" => running # {} \/ \E n \in All \ DOMAIN done : Range(g[n]) \subseteq DOMAIN done
Partition == \A n \in 1..5 : \A s \in 1..6 : LET c == Chunks(n, s) IN
  UNION Range(c) = 0..(n - 1) /\ \A a, b \in DOMAIN c : a # b => c[a] \cap c[b] = {}
SimNext == /\ Len(hist) < MaxHist
           /\ \E x \in {[k \in 1..12 |-> RandomElement((0..23) \ {-Len(hist)})]} : hist' = Append(hist, x)
           /\ UNCHANGED <<g, goals, done, running, count, status>>
SimInit == g = <<>> /\ goals = {} /\ done = <<>> /\ running = {} /\ count = <<>> /\ hist = <<>> /\ status = "sim"
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) < MaxHist \/ PrintT(<<"@beh", ToJson(hist)>>)
============================================================================
