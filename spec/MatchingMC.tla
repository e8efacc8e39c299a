----------------------------- MODULE MatchingMC -----------------------------
(* Queries of a matcher remembering its answers while the sides are moved   *)
(* and renumbered.                                                          *)
EXTENDS Matching, TLC, Json
CONSTANTS Side, NP, MaxHist
VARIABLES P, Q, memory, answer, hist
vars == <<P, Q, memory, answer, hist>>
Points == (0..Side) \X (0..Side)
Seqs == {q \in UNION {[1..n -> Points] : n \in 1..NP} : TRUE}
Dirs == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>}
Queries == {<<"coors", <<0, 0>>>>} \cup {<<"dir", d>> : d \in Dirs} \cup {<<"line", 1>>, <<"line", 2>>}
Init == P \in Seqs /\ Q \in Seqs /\ Len(P) = Len(Q) /\ memory = {} /\ answer = [q |-> <<"coors", <<0, 0>>>>, m |-> {}, asked |-> FALSE] /\ hist = <<>>
\* What is known is identified by the coordinates of both sides in the order given.
Ask(q) == LET known == {k \in memory : k.P = P /\ k.Q = Q /\ k.q = q}
              M == IF known # {} THEN (CHOOSE k \in known : TRUE).m ELSE Match(P, Q, q[1], q[2])
          IN /\ answer' = [q |-> q, m |-> M, asked |-> TRUE]
             /\ memory' = IF M = {} THEN memory ELSE memory \cup {[P |-> P, Q |-> Q, q |-> q, m |-> M]}
             /\ UNCHANGED <<P, Q, hist>>
Swap(s, j, k) == [s EXCEPT ![j] = s[k], ![k] = s[j]]
Renumber == \E j, k \in DOMAIN P : /\ j < k
                                   /\ \/ P' = Swap(P, j, k) /\ Q' = Q
                                      \/ Q' = Swap(Q, j, k) /\ P' = P
                                   /\ answer' = [answer EXCEPT !.asked = FALSE] /\ UNCHANGED <<memory, hist>>
Next == (Cardinality(memory) < 2 /\ \E q \in Queries : Ask(q)) \/ Renumber
Spec == Init /\ [][Next]_vars
\* Answers do not depend on what was asked before.
Current == answer.asked => answer.m = Match(P, Q, answer.q[1], answer.q[2])
Exact == (answer.asked /\ answer.m # {}) => /\ Bijection(answer.m, Len(P))
           /\ (answer.q[1] = "coors" => \A m \in answer.m : P[m[1]] = Q[m[2]])
           /\ (answer.q[1] = "dir" => \A m \in answer.m : Parallel(Sub(Q[m[2]], P[m[1]]), answer.q[2]))
\* Only one shift along a direction maps the (finite) sides.
Unique == \A d \in Dirs : Len(P) = Len(Q) => Cardinality(Shifts(P, Q, d)) <= 1
\* Sides exchanged: the pairs exchanged; directions of any length and sign.
Inverse == \A q \in Queries : Match(Q, P, q[1], q[2]) = {<<m[2], m[1]>> : m \in Match(P, Q, q[1], q[2])}
Scale == \A d \in Dirs : Match(P, Q, "dir", d) = Match(P, Q, "dir", [k \in DOMAIN d |-> (0 - 3) * d[k]])
SimInit == P = <<>> /\ Q = <<>> /\ memory = {} /\ answer = 0 /\ hist = <<>>
SimNext == /\ Len(hist) < MaxHist /\ UNCHANGED <<P, Q, memory, answer>>
           /\ hist' = Append(hist, [op |-> <<"ask", "ask", "ask", "perm1", "perm2", "permboth", "move", "drop", "double", "shift", "new">>[RandomElement((1..11) \ {-Len(hist)})],
                                    kind |-> <<"dir", "dir", "axis", "axis", "coors", "line", "perm">>[RandomElement((1..7) \ {-Len(hist)})],
                                    w |-> RandomElement((0..9999) \ {-Len(hist)})])
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) = MaxHist => PrintT(<<"@beh", ToJson(hist)>>)
=============================================================================
