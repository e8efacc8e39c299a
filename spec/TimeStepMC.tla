---------------------------- MODULE TimeStepMC ----------------------------
(* Adaptive time stepping under any sequence of solver outcomes, with     *)
(* restarts from any completed step.                                      *)
EXTENDS TimeStep, Json
CONSTANTS C, T1, SCHED, NT, MAXLEN
\* Values for configuration files.
MC_C == [dt0 |-> 16, rn |-> 1, rd |-> 2, mn |-> 1, md |-> 4, inn |-> 2,
         ind |-> 1, wait |-> 1]
MC_C2 == [dt0 |-> 27, rn |-> 1, rd |-> 3, mn |-> 1, md |-> 9, inn |-> 3,
          ind |-> 1, wait |-> 0]
MC_Sched == <<0, 5, 16, 20, 21, 32>>
MC_Sched0 == <<>>
VARIABLES s,      \* the stepper
          wait,   \* consecutive easy steps
          base,   \* the accepted state
          ph,     \* "solve", "done"
          ptr,    \* served save requests
          saved,  \* steps flagged for saving
          grown,  \* easy steps since the last change or hard step
          ck,     \* saved restart states
          hist
vars == <<s, wait, base, ph, ptr, saved, grown, ck, hist>>
view == <<s, wait, base, ph, ptr, saved, grown, ck>>
Snap == [s |-> s, wait |-> wait, base |-> base, ph |-> ph, ptr |-> ptr,
         saved |-> saved, grown |-> grown]

\* Step 0 is the initial state, saved when due.
Init == /\ s = VAdvance(VarInit(T1, C.dt0))
        /\ wait = 0 /\ base = 0 /\ ph = "solve"
        /\ ptr = IF SaveDue(SCHED, 0, 0) THEN 1 ELSE 0
        /\ saved = IF SaveDue(SCHED, 0, 0) THEN {0} ELSE {}
        /\ grown = 0 /\ ck = {} /\ hist = <<>>

Solve(out) ==
  /\ ph = "solve"
  /\ LET a == Adapted(C, s.dt, wait, out) IN
     /\ wait' = a.wait
     /\ hist' = Append(hist, out)
     /\ IF a.retry
        THEN /\ s' = VSetDt(s, a.dt, TRUE)
             /\ grown' = 0
             /\ UNCHANGED <<base, ph, ptr, saved>>
        ELSE /\ LET due == SaveDue(SCHED, ptr, VTime(s)) IN
                /\ ptr' = IF due THEN ptr + 1 ELSE ptr
                /\ saved' = IF due THEN saved \cup {VStep(s)} ELSE saved
             /\ base' = VStep(s)
             /\ IF VDone(s)
                THEN ph' = "done" /\ s' = VSetDt(s, a.dt, FALSE)
                ELSE ph' = ph /\ s' = VAdvance(VSetDt(s, a.dt, FALSE))
             /\ grown' = IF out = "easy" /\ a.dt = s.dt /\ a.wait > 0
                         THEN grown + 1 ELSE 0
  /\ UNCHANGED ck
Keep == /\ Cardinality(ck) < NT /\ ck' = ck \cup {Snap}
        /\ UNCHANGED <<s, wait, base, ph, ptr, saved, grown>>
        /\ hist' = Append(hist, "keep")
Load == \E k \in ck :
        /\ s' = k.s /\ wait' = k.wait /\ base' = k.base /\ ph' = k.ph
        /\ ptr' = k.ptr /\ saved' = k.saved /\ grown' = k.grown
        /\ UNCHANGED ck /\ hist' = Append(hist, "load")
Next == (\E out \in {"easy", "hard", "fail"} : Solve(out)) \/ Keep \/ Load
Spec == Init /\ [][Next]_vars
Bounded == Len(hist) <= MAXLEN

\* Properties.
Increasing == \A k \in 1..(Len(s.times) - 1) : s.times[k] < s.times[k + 1]
StartsAtT0 == s.times[1] = 0
OneStepPastEnd == \A k \in 1..(Len(s.times) - 1) : s.times[k] < T1
EndReached == ph = "done" => VTime(s) >= T1
LimitKept == s.dt * C.md >= C.dt0 * C.mn /\ s.dt <= C.dt0
WaitBounded == wait <= C.wait /\ grown <= C.wait
\* A state to solve from is always the one of the previous step.
BaseIsPrevious == ph = "solve" => base = VStep(s) - 1
EachOnce == Cardinality(saved) = ptr /\ ptr <= Len(SCHED)
\* A request is never served before its time, nor skipped by a later step.
NotEarly == ph = "solve" =>
  \A j \in 1..ptr : \E k \in saved : s.times[k + 1] >= SCHED[j]
DueServed == (ph = "done" /\ ptr < Len(SCHED)) =>
   \/ VTime(s) < SCHED[ptr + 1]
   \/ Cardinality(saved) >= 1
\* Growth only after C.wait + 1 easy steps in a row; reduction only on failure.
DtRule == [][(s'.dt > s.dt /\ ck' = ck /\ hist'[Len(hist')] # "load")
             => (wait = C.wait /\ hist'[Len(hist')] = "easy" /\ grown = C.wait)]_vars
RetryRule == [][(hist' # hist /\ hist'[Len(hist')] = "fail" /\ Len(s'.times) = Len(s.times)
                 /\ ph' = "solve")
                => (s'.dt < s.dt /\ base' = base
                    /\ SubSeq(s'.times, 1, Len(s.times) - 1)
                       = SubSeq(s.times, 1, Len(s.times) - 1))]_vars

\* Simulation.
SimNext ==
  /\ Len(hist) < MAXLEN
  /\ \E o \in {RandomElement({"easy", "easy2", "easy3", "hard", "fail", "fail2"})} :
     Solve(CASE o \in {"easy", "easy2", "easy3"} -> "easy"
             [] o \in {"fail", "fail2"} -> "fail" [] OTHER -> o)
SimSpec == Init /\ [][SimNext]_vars
EmitHist == (Len(hist) = MAXLEN \/ ph = "done") => PrintT(<<"@beh", ToJson(hist)>>)
=========================================================================
