----------------------------- MODULE ResultsMC -----------------------------
(* Writing a step item by item, with failures and crashes in the middle,   *)
(* against the map of completed steps.                                     *)
EXTENDS Results, Json
CONSTANTS MaxStep, MaxOps
VARIABLES f, cur, hist, old, n
vars == <<f, cur, hist, old, n>>
It(k, id) == [key |-> k, mode |-> "vertex", id |-> id, dim |-> 1]
Kinds == {"a", "b"}
\* cur: the step being written, [on, step, items].
Off == [on |-> FALSE, step |-> -1, items |-> <<>>]
Init == f = Empty /\ cur = Off /\ hist = <<>> /\ old = Empty /\ n = 0
Begin == /\ ~cur.on /\ n < MaxOps
         /\ \E s \in 0..MaxStep : CanWrite(f, s) /\ cur' = [on |-> TRUE, step |-> s, items |-> <<>>]
            /\ f' = (IF s = 0 \/ ~f.has THEN Fail(f, s) ELSE f)
         /\ old' = f' /\ n' = n + 1 /\ UNCHANGED hist
Put == /\ cur.on /\ \E k \in Kinds \ Keys(cur.items) : cur' = [cur EXCEPT !.items = Append(@, It(k, n))]
       /\ UNCHANGED <<f, hist, old, n>>
Commit == /\ cur.on /\ cur.items # <<>>
          /\ f' = Write([f EXCEPT !.has = f.has], cur.step, [t |-> n, items |-> cur.items])
          /\ cur' = Off /\ UNCHANGED <<hist, old, n>>
Abort == cur.on /\ cur' = Off /\ UNCHANGED <<f, hist, old, n>>
Next == Begin \/ Put \/ Commit \/ Abort
Spec == Init /\ [][Next]_vars
\* Completed steps never change (unless a new run starts with step 0) ...
Kept == (cur.on \/ f # old) => \A x \in DOMAIN old.steps : x \in DOMAIN f.steps /\ f.steps[x] = old.steps[x]
\* ... readers see them in order, each value at its own step, ...
Listing == \A j \in 1..(Len(Steps(f)) - 1) : Steps(f)[j] < Steps(f)[j + 1]
Histories == \A k \in Kinds : InAll(f, k) =>
   \A j \in DOMAIN Steps(f) : History(f, k, 2)[j] = Row(Item(f, Steps(f)[j], k), 2)
\* ... and nothing incomplete is visible.
Visible == cur.on => (cur.step \notin DOMAIN f.steps)
Last == DOMAIN f.steps # {} => f.last \in DOMAIN f.steps
\* --- generated operations
Ops == {"write", "write", "write", "write", "fail", "hist", "extract", "vhist", "dump", "mesh"}
SimNext == /\ n < MaxOps /\ n' = n + 1
           /\ \E o \in {RandomElement({"write", "write2", "write3", "fail", "hist", "extract", "extract2", "vhist", "dump", "mesh"} \ {ToString(n)})} :
              \E a \in {RandomElement((0..9) \ {-n})} : \E b \in {RandomElement((0..9) \ {-n})} :
                hist' = Append(hist, [op |-> o, a |-> a, b |-> b])
           /\ UNCHANGED <<f, cur, old>>
SimSpec == Init /\ [][SimNext]_vars
EmitHist == n < MaxOps \/ PrintT(<<"@beh", ToJson(hist)>>)
=============================================================================
