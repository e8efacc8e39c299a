------------------------------ MODULE TsRunMC ------------------------------
(* The step-by-step protocol (with crashes and restarts) against the whole *)
(* run as a function of the solver outcomes (TsRun).                       *)
EXTENDS TsRun, SequencesExt, FiniteSets, Json
CONSTANTS MaxNls, Steps
VARIABLES c, s, phase, prep, seen, script, ends, file, crashed
vars == <<c, s, phase, prep, seen, script, ends, file, crashed>>
Save == {[kind |-> "all", times |-> <<>>, n |-> 0], [kind |-> "list", times |-> <<0, 20, 24, 60>>, n |-> 0],
         [kind |-> "int", times |-> <<>>, n |-> 3]}
Configs == {[ts |-> ts, quasi |-> q, t0 |-> 0, t1 |-> 16 * (n - 1), n_step |-> n, f |-> <<1, 2>>, g |-> <<0, 3, 1>>,
             easy |-> 2, wait |-> w, redmax |-> 4, save |-> sv] :
            ts \in {"simple", "adaptive"}, q \in BOOLEAN, n \in Steps, w \in {0, 1, 99}, sv \in Save}
\* prep: the time that boundary conditions and materials are set for.
Init == /\ c \in Configs /\ s = Start(c, 7) /\ phase = "prep" /\ prep = None /\ seen = <<>> /\ script = <<>>
        /\ ends = <<>> /\ file = <<>> /\ crashed = 0
Outcomes == {<<0, 1>>, <<0, 9>>, <<1, 1>>}
Prepare == phase = "prep" /\ prep' = s.t /\ phase' = "solve" /\ UNCHANGED <<c, s, seen, script, ends, file, crashed>>
Skip0 == s.step = 0 /\ Trans(c)
Solve == /\ phase = "solve"
         /\ \E y \in Outcomes :
            /\ Skip0 => y = <<0, 1>>
            /\ Len(script) < MaxNls \/ y = <<0, 1>>
            /\ LET a == IF Skip0 THEN <<TRUE, s>> ELSE Adapt(c, s, y) IN
               /\ phase' = (IF a[1] THEN "end" ELSE "prep") /\ s' = a[2]
            /\ script' = IF Skip0 THEN script ELSE Append(script, y)
            /\ seen' = IF Skip0 THEN seen ELSE Append(seen, NlsRec(c, s, y))
         /\ UNCHANGED <<c, prep, ends, file, crashed>>
End == /\ phase = "end"
       /\ seen' = seen \o EndRecs(c, s, TRUE)
       /\ ends' = Append(ends, s)
       /\ file' = [s |-> s, times |-> [k \in 1..(Len(ends) + 1) |-> IF k <= Len(ends) THEN ends[k].t ELSE s.t]]
       /\ s' = Ended(c, s) /\ phase' = (IF IsLast(c, s) THEN "done" ELSE "next")
       /\ UNCHANGED <<c, prep, script, crashed>>
Adv == /\ phase = "next" /\ s' = NextStep(c, s) /\ phase' = "prep"
       /\ UNCHANGED <<c, prep, seen, script, ends, file, crashed>>
\* A crash at any point loses everything but the last restart file.
Crash == /\ crashed = 0 /\ file # <<>> /\ c.wait # 1 /\ phase \in {"prep", "solve", "end", "next"}
         /\ ~IsLast(c, file.s)
         /\ s' = Resume(c, file.s, file.times) /\ phase' = "prep" /\ prep' = None /\ crashed' = 1
         \* What was done in the unfinished step is lost: as if not done.
         /\ LET done == Len(file.times) n == Cardinality({k \in DOMAIN seen : seen[k].step < done /\ seen[k].e = "nls"}) IN
            /\ script' = SubSeq(script, 1, n)
            /\ seen' = SelectSeq(seen, LAMBDA r : r.step < done)
         /\ UNCHANGED <<c, ends, file>>
Next == Prepare \/ Solve \/ End \/ Adv \/ Crash
Spec == Init /\ [][Next]_vars
Refines == phase = "done" => LET r == Go(c, Start(c, 7), script, TRUE, [log |-> <<>>, ends |-> <<>>]) IN
   LET nw(q) == [k \in DOMAIN q |-> [q[k] EXCEPT !.wait = 0]] IN
   seen = r.log /\ nw(ends) = nw(r.ends)
Prepared == phase \in {"solve", "end"} => prep = s.t
\* The history seen in a step are the accepted states of the two previous ones.
History == \A k \in DOMAIN seen : LET r == seen[k] IN (r.e # "save" /\ r.step > 0) =>
   /\ r.hist[1] = ends[r.step].u
   /\ r.hist[2] = ends[IF r.step > 1 THEN r.step - 1 ELSE 1].u
OncePerStep == \A n \in 0..(Len(ends) - 1) :
   /\ Cardinality({k \in DOMAIN seen : seen[k].e = "hook" /\ seen[k].step = n}) = 1
   /\ Cardinality({k \in DOMAIN seen : seen[k].e = "save" /\ seen[k].step = n}) <= 1
Ordered == \A k \in 1..(Len(ends) - 1) : ends[k].t < ends[k + 1].t /\ ends[k + 1].step = k
Reached == phase = "done" => ends[Len(ends)].t >= c.t1
AllServed == (phase = "done" /\ c.save.kind = "list") =>
   \A j \in DOMAIN c.save.times : (\E k \in DOMAIN ends : Cardinality({l \in k..Len(ends) : TRUE}) >= Len(c.save.times)
                                      /\ ends[k].t >= c.save.times[j]) => s.ptr >= j
\* --- generated runs
Rnd(S) == RandomElement(S)
SimNext == /\ Len(script) < MaxNls
           /\ \E y \in {RandomElement({<<0, 1>>, <<0, 2>>, <<0, 9>>, <<1, 1>>, <<1, 9>>, <<0, 3>>} \ {<<2, Len(script)>>})} :
                script' = Append(script, y)
           /\ UNCHANGED <<c, s, phase, prep, seen, ends, file, crashed>>
SimInit == c = 0 /\ s = 0 /\ phase = "sim" /\ prep = 0 /\ seen = <<>> /\ script = <<>> /\ ends = <<>>
           /\ file = <<>> /\ crashed = 0
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(script) < MaxNls \/ PrintT(<<"@beh", ToJson(script)>>)
============================================================================
