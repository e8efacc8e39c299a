----------------------------- MODULE EqOps -----------------------------
(* Random sets of conditions and sequences of calls, by kinds.             *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES hist
S(x) == x \ {-Len(hist)}
CondKinds == <<"ebc", "ebc", "ebc", "epbc", "epbc", "ic">>
OpKinds == <<"map", "map", "full", "follow", "apply", "apply", "ic">>
SimInit == hist = <<>>
SimNext ==
  \/ /\ Len(hist) < 7
     /\ \E k \in {RandomElement(S(1..6))} : \E r \in {RandomElement(S(0..9))} :
        \E c \in {RandomElement(S(0..9))} : \E v \in {RandomElement(S(0..5))} :
        \E tm \in {RandomElement(S(0..5))} : \E ky \in {RandomElement(S(0..4))} :
        hist' = Append(hist, [k |-> CondKinds[k], r |-> r, c |-> c, v |-> v, t |-> tm, key |-> ky])
  \/ /\ Len(hist) >= 7
     /\ \E k \in {RandomElement(S(1..7))} : hist' = Append(hist, [k |-> OpKinds[k]])
SimSpec == SimInit /\ [][SimNext]_hist
EmitHist == Len(hist) = 18 => PrintT(<<"@beh", ToJson(hist)>>)
=========================================================================
