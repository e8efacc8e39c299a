----------------------------- MODULE DepsMC -----------------------------
(* Declaration of items and their processing by passes over the items in  *)
(* the order of declaration, as regions are created.                      *)
EXTENDS Deps, Json
CONSTANTS N, MaxDeps, Emit
VARIABLES decl, deps, left, out, pos, moved, phase, hist
vars == <<decl, deps, left, out, pos, moved, phase, hist>>
Names == 1..N
Undecl == N + 1   \* A name that is never declared.
Init == decl = <<>> /\ deps = <<>> /\ left = <<>> /\ out = <<>> /\ pos = 1
        /\ moved = FALSE /\ phase = "declare" /\ hist = <<>>
Declare(x, D) ==
  /\ phase = "declare" /\ x \notin DOMAIN deps
  /\ decl' = Append(decl, x) /\ deps' = (x :> D) @@ deps
  /\ left' = (x :> D) @@ left
  /\ hist' = IF Emit THEN Append(hist, [x |-> x, d |-> D]) ELSE hist
  /\ UNCHANGED <<out, pos, moved, phase>>
StartProc == phase = "declare" /\ Len(decl) = N /\ phase' = "run"
             /\ UNCHANGED <<decl, deps, left, out, pos, moved, hist>>
Done(x) == x \in {out[k] : k \in DOMAIN out}
\* One visit of an item: either it is processed, or its fulfilled
\* prerequisites are crossed out.
Visit ==
  /\ phase = "run" /\ pos <= N
  /\ LET x == decl[pos] IN
     IF left[x] = {} /\ ~Done(x)
     THEN out' = Append(out, x) /\ moved' = TRUE /\ UNCHANGED <<left, phase>>
     ELSE IF ~Done(x)
     THEN IF \E y \in left[x] : y \notin DOMAIN deps
          THEN phase' = "refused" /\ UNCHANGED <<left, out, moved>>
          ELSE LET S == {y \in left[x] : Done(y)} IN
               /\ left' = [left EXCEPT ![x] = @ \ S]
               /\ moved' = (moved \/ S # {})
               /\ UNCHANGED <<out, phase>>
     ELSE UNCHANGED <<left, out, moved, phase>>
  /\ pos' = pos + 1
  /\ UNCHANGED <<decl, deps, hist>>
EndPass ==
  /\ phase = "run" /\ pos = N + 1
  /\ pos' = 1 /\ moved' = FALSE
  /\ phase' = IF Len(out) = N THEN "done" ELSE IF ~moved THEN "refused" ELSE "run"
  /\ UNCHANGED <<decl, deps, left, out, hist>>
Next == \/ \E x \in Names : \E D \in SUBSET (Names \cup {Undecl}) :
              Cardinality(D) <= MaxDeps /\ Declare(x, D)
        \/ StartProc \/ Visit \/ EndPass
Spec == Init /\ [][Next]_vars /\ WF_vars(StartProc \/ Visit \/ EndPass)
Ordering == \A k \in DOMAIN out : deps[out[k]] \subseteq {out[j] : j \in 1..(k - 1)}
OnceEach == Cardinality({out[k] : k \in DOMAIN out}) = Len(out)
Final == /\ phase = "done" => ~Refused(deps, Names) /\ Ordered(deps, Names, out)
         /\ phase = "refused" => Refused(deps, Names)
Ends == (phase = "run") ~> (phase \in {"done", "refused"})
\* Groups that can be solved on their own, one after another.
RECURSIVE CanBlock(_, _)
CanBlock(rest, done) ==
  rest = {} \/ \E B \in (SUBSET rest) \ {{}} :
                 Needs(deps, B, done) = B /\ CanBlock(rest \ B, done \cup B)
BlockLaws == phase = "run" /\ pos = 1 /\ out = <<>> =>
  /\ \A x, y \in Names : Block(deps, x) = Block(deps, y)
                          \/ Block(deps, x) \cap Block(deps, y) = {}
  /\ CanBlock(Names, {}) <=> Solvable(deps)
\* Scenario generation: mostly small acyclic graphs.
SimDeclare ==
  /\ phase = "declare" /\ Len(decl) < N
  /\ LET x == RandomElement(Names \ DOMAIN deps)
         k == RandomElement(0..9)
         lower == {y \in Names : y < x}
         pool == IF k = 0 THEN Names \cup {Undecl} ELSE IF k = 1 THEN Names ELSE lower
         D == RandomElement({S \in SUBSET pool : Cardinality(S) <= MaxDeps}) IN
     Declare(x, D)
SimSpec == Init /\ [][SimDeclare]_vars
EmitHist == (Emit /\ Len(hist) = N) => PrintT(<<"@beh", ToJson(hist)>>)
=========================================================================
