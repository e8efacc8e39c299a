----------------------------- MODULE VarOps -----------------------------
(* Random operation kinds; the parameters are chosen by the scenario       *)
(* generator.                                                              *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES hist
Kind == <<"init_state", "set_state", "set_state", "fill", "part", "part", "pokevec",
  "data", "data", "data", "dict", "const", "poke", "pokeuser", "init_history",
  "advance", "advance", "advance", "advance", "dt", "bad", "eval", "eval", "eval",
  "eval", "clear">>
SimInit == hist = <<>>
SimNext == \E x \in {RandomElement(DOMAIN Kind \ {-Len(hist)})} : hist' = Append(hist, Kind[x])
SimSpec == SimInit /\ [][SimNext]_hist
EmitHist == Len(hist) = 30 => PrintT(<<"@beh", ToJson(hist)>>)
=========================================================================
