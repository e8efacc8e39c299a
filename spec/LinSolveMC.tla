---------------------------- MODULE LinSolveMC ----------------------------
(* The cache of a factorization: its key is the identity of the matrix     *)
(* object and the digest of its content (for the formats with a digest).   *)
(* Objects are changed in place, or deleted, with the identity reused by   *)
(* another object.                                                         *)
EXTENDS LinSolve, Json, TLC
CONSTANTS NObj, NCont, Formats, ForgetKey, MaxHist
VARIABLES objs, fmt, held, fact, key, ans, hist
vars == <<objs, fmt, held, fact, key, ans, hist>>
\* fact: the content factorized (0: none); key: of the digest (<<0, 0>>: none).
Key(o) == <<o, objs[o]>>
Init == /\ objs = [o \in 1..NObj |-> 1] /\ fmt \in [1..NObj -> Formats] /\ held = {} /\ fact = 0 /\ key = <<0, 0>>
        /\ ans = <<>> /\ hist = <<>>
Solve(o, reuse, trust) ==
  LET c == objs[o]
      isnew == (fmt[o] # "csr") \/ (Key(o) # key)
      f0 == IF reuse THEN fact ELSE 0
      again == (f0 = 0) \/ (~trust /\ isnew)
      fact1 == IF again THEN c ELSE f0
  IN /\ ans' = <<fact1, c, trust, IF reuse THEN held ELSE {}>>
     /\ fact' = IF reuse THEN fact1 ELSE 0
     /\ key' = IF reuse /\ again THEN (IF fmt[o] = "csr" /\ ~trust THEN Key(o) ELSE IF ForgetKey THEN <<0, 0>> ELSE key) ELSE key
     /\ held' = Kept(IF reuse THEN held ELSE {}, c, trust)
     /\ UNCHANGED <<objs, fmt>>
Change(o, c) == objs' = [objs EXCEPT ![o] = c] /\ UNCHANGED <<fmt, held, fact, key>> /\ ans' = <<>>
Replace(o, c, f) == objs' = [objs EXCEPT ![o] = c] /\ fmt' = [fmt EXCEPT ![o] = f] /\ UNCHANGED <<held, fact, key>> /\ ans' = <<>>
Clear == fact' = 0 /\ held' = {} /\ UNCHANGED <<objs, fmt, key>> /\ ans' = <<>>
Next == /\ UNCHANGED hist
        /\ \/ \E o \in 1..NObj, reuse, trust \in BOOLEAN : Solve(o, reuse, trust)
           \/ \E o \in 1..NObj, c \in 1..NCont : Change(o, c) \/ \E f \in Formats : Replace(o, c, f)
           \/ Clear
Spec == Init /\ [][Next]_vars
NeverOld == ans # <<>> => ans[1] \in Answers(ans[4], ans[2], ans[3])
FactIsKept == fact # 0 => fact \in held

\* Histories for the real code: numbers choosing operations and arguments.
SimInit == Init
SimNext == /\ Len(hist) < MaxHist /\ UNCHANGED <<objs, fmt, held, fact, key, ans>>
           /\ hist' = Append(hist, [op |-> RandomElement((0..23) \ {-Len(hist)}), o |-> RandomElement((1..NObj) \ {-Len(hist)}),
                                    c |-> RandomElement((1..NCont) \ {-Len(hist)}), w |-> RandomElement((0..719) \ {-Len(hist)})])
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) = MaxHist => PrintT(<<"@beh", ToJson(hist)>>)
===========================================================================
