---------------------------- MODULE VarHistMC ----------------------------
(* Storage model: the values live in arrays (heap references); two state   *)
(* variables point to blocks of one vector, a parameter points to arrays   *)
(* of the user.  Refinement: dereferencing the storage gives always the    *)
(* values of VarHist; history never shares storage.                        *)
EXTENDS VarHist, TLC, FiniteSetsExt, Json
CONSTANTS Vals, HU, HP, HS, MaxStep
V == {"u", "p", "s"}
H(x) == CASE x = "u" -> HU [] x = "p" -> HP [] OTHER -> HS
Block(x) == IF x = "p" THEN 2 ELSE 1
VARIABLES heap, slot, vec, abs, step, vals
vars == <<heap, slot, vec, abs, step, vals>>
\* heap: ref -> <<a, b>>; slot[x][k] = <<ref, block>> or <<>>
Refs == 1..12
LiveRefs(sl, vc) == {r \in Refs : r = vc \/ \E x \in V : \E k \in DOMAIN sl[x] :
                       sl[x][k] # <<>> /\ sl[x][k][1] = r}
Free(sl, vc) == CHOOSE r \in Refs : /\ r \notin LiveRefs(sl, vc)
                  /\ \A q \in Refs : q < r => q \in LiveRefs(sl, vc)
Deref(hp, c) == IF c = <<>> THEN NULL ELSE <<hp[c[1]][c[2]]>>
Init == /\ heap = [r \in Refs |-> <<0, 0>>] /\ vec = 1
        /\ slot = [x \in V |-> IF x = "s" THEN <<<<>>>> ELSE <<<<1, Block(x)>>>>]
        /\ abs = [x \in V |-> IF x = "s" THEN Var(H(x))
                              ELSE Assign(Var(H(x)), 0, <<0>>)]
        /\ step = 0 /\ vals = 0
SetSlot(x, k, c) == [slot EXCEPT ![x][k] = c]
\* The state vector is filled in place.
SetVec == \E a, b \in Vals :
  /\ heap' = [heap EXCEPT ![vec] = <<a, b>>]
  /\ abs' = [abs EXCEPT !["u"] = Assign(@, 0, <<a>>), !["p"] = Assign(@, 0, <<b>>)]
  /\ UNCHANGED <<slot, vec, step, vals>>
Part == \E x \in {"u", "p"}, a \in Vals :
  /\ heap' = [heap EXCEPT ![vec][Block(x)] = a]
  /\ abs' = [abs EXCEPT ![x] = Assign(@, 0, <<a>>)]
  /\ UNCHANGED <<slot, vec, step, vals>>
\* A new array given to a parameter is used without copying ...
SetCur == \E a \in Vals : LET r == Free(slot, vec) IN
  /\ heap' = [heap EXCEPT ![r] = <<a, a>>] /\ slot' = SetSlot("s", 1, <<r, 1>>)
  /\ abs' = [abs EXCEPT !["s"] = Assign(@, 0, <<a>>)]
  /\ UNCHANGED <<vec, step, vals>>
\* ... and can be modified through the parameter.
Poke == \E a \in Vals : /\ slot["s"][1] # <<>>
  /\ heap' = [heap EXCEPT ![slot["s"][1][1]][1] = a]
  /\ abs' = [abs EXCEPT !["s"] = Assign(@, 0, <<a>>)]
  /\ UNCHANGED <<slot, vec, step, vals>>
\* History values are copied.
SetHist == \E x \in V, s \in {-1, -2}, a \in Vals :
  /\ InRange(abs[x], s)
  /\ LET r == Free(slot, vec) IN
     /\ heap' = [heap EXCEPT ![r] = <<a, a>>] /\ slot' = SetSlot(x, 1 - s, <<r, 1>>)
  /\ abs' = [abs EXCEPT ![x] = Assign(@, s, <<a>>)]
  /\ UNCHANGED <<vec, step, vals>>
InitState == \E a, b \in Vals : LET r == Free([x \in {"s", "u", "p"} |->
        IF x = "s" THEN slot[x] ELSE <<<<>>>>], 0) IN
  /\ heap' = [heap EXCEPT ![r] = <<a, b>>] /\ vec' = r
  /\ slot' = [x \in V |-> IF x = "s" THEN slot[x]
        ELSE [k \in 1..(IF H(x) < 0 THEN 1 ELSE H(x) + 1) |->
                IF k = 1 THEN <<r, Block(x)>> ELSE <<>>]]
  /\ abs' = [x \in V |-> IF x = "s" THEN abs[x]
        ELSE Assign(InitHist(abs[x]), 0, <<IF x = "u" THEN a ELSE b>>)]
  /\ UNCHANGED <<step, vals>>
InitParam == /\ slot' = [slot EXCEPT !["s"] = [k \in 1..(IF H("s") < 0 THEN 1 ELSE H("s") + 1) |->
                   IF H("s") < 0 THEN slot["s"][1] ELSE <<>>]]
             /\ abs' = [abs EXCEPT !["s"] = InitHist(@)]
             /\ UNCHANGED <<heap, vec, step, vals>>
\* Advance of one variable: a copy of the current block becomes step -1.
RECURSIVE Shift(_, _, _, _, _)
Shift(hp, sl, x, k, c) ==   \* c: the storage coming to slot k
  IF k > Len(sl[x]) THEN <<hp, sl>>
  ELSE IF sl[x][k] # <<>> THEN Shift(hp, [sl EXCEPT ![x][k] = c], x, k + 1, sl[x][k])
  ELSE LET sl1 == [sl EXCEPT ![x][k] = c]
           r == Free(sl1, vec)
           val == hp[c[1]][c[2]]
       IN Shift([hp EXCEPT ![r] = <<val, val>>], sl1, x, k + 1, <<r, 1>>)
Adv1(hs, x) ==
  IF H(x) < 1 \/ Len(hs[2][x]) < 2 THEN hs
  ELSE LET r == Free(hs[2], vec)
           v == hs[1][hs[2][x][1][1]][hs[2][x][1][2]]
       IN Shift([hs[1] EXCEPT ![r] = <<v, v>>], hs[2], x, 2, <<r, 1>>)
Adv == LET hs == Adv1(Adv1(<<heap, slot>>, "u"), "p") IN
  /\ step < MaxStep
  /\ Len(abs["u"].d) = HU + 1
  /\ heap' = hs[1] /\ slot' = hs[2] /\ step' = step + 1
  /\ abs' = [x \in V |-> IF x = "s" THEN abs[x] ELSE Advance(abs[x], step)]
  /\ UNCHANGED <<vec, vals>>
AdvS == LET hs == Adv1(<<heap, slot>>, "s") IN
  /\ slot["s"][1] # <<>> /\ Len(abs["s"].d) = HS + 1
  /\ heap' = hs[1] /\ slot' = hs[2]
  /\ abs' = [abs EXCEPT !["s"] = Advance(@, step)] /\ UNCHANGED <<vec, step, vals>>
Next == SetVec \/ Part \/ SetCur \/ Poke \/ SetHist \/ InitState \/ InitParam
        \/ Adv \/ AdvS
Spec == Init /\ [][Next]_vars
Refines == \A x \in V : /\ Len(slot[x]) = Len(abs[x].d)
                        /\ \A k \in DOMAIN slot[x] : Deref(heap, slot[x][k]) = abs[x].d[k]
OwnHistory == \A x, y \in V : \A k \in DOMAIN slot[x], l \in DOMAIN slot[y] :
   (slot[x][k] # <<>> /\ slot[y][l] # <<>> /\ slot[x][k][1] = slot[y][l][1])
     => (x = y /\ k = l) \/ (k = 1 /\ l = 1 /\ slot[x][k][1] = vec)
\* States differing only by the names of references or by garbage are equal.
Slots == UNION {{<<x, k>> : k \in DOMAIN slot[x]} : x \in V}
Ref(c) == IF slot[c[1]][c[2]] = <<>> THEN 0 ELSE slot[c[1]][c[2]][1]
View == <<{<<a, b>> \in Slots \X Slots : Ref(a) = Ref(b)},
          {a \in Slots : Ref(a) = vec},
          [a \in Slots |-> Deref(heap, slot[a[1]][a[2]])], abs, step>>
=========================================================================
