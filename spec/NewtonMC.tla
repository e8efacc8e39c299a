----------------------------- MODULE NewtonMC -----------------------------
EXTENDS Newton, Json, TLC, FiniteSets
CONSTANTS Norms, IMax, LsMin, Reds, MaxHist
VARIABLES c, s, prev, hist
vars == <<c, s, prev, hist>>
Confs == [i_max : 0..IMax, eps_a : {0, 1}, eps_r : {<<1, 1>>, <<1, 2>>}, any : BOOLEAN, ls_on : {<<1, 1>>, <<1, 2>>}, ls_red : Reds,
          ls_red_warp : {2}, ls_min : LsMin, step_red : {1}, give_up : BOOLEAN, mode : {"residual", "error"}, linear : BOOLEAN,
          hook : {FALSE}, usejac : BOOLEAN]
Init == c \in Confs /\ s = Start(c, <<0, 0>>) /\ prev = -1 /\ hist = <<>>
Step == /\ s.ph # "end"
        /\ CASE s.ph = "fun" -> \E out \in Norms \cup {Failed, NonFinite} : s' = Fun(c, s, out)
             [] s.ph = "resolve" -> \E dn \in Norms : s' = Resolve(c, s, dn)
             [] s.ph = "isnew" -> \E ret \in BOOLEAN : s' = IsNew(c, s, ret)
             [] s.ph = "grad" -> s' = Grad(c, s)
             [] s.ph = "lin" -> \E dn \in Norms : s' = Lin(c, s, <<0, 0>>, dn, 1)
        /\ prev' = (IF s'.it # s.it THEN s.err ELSE prev)
        /\ UNCHANGED <<c, hist>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Done == s.ph = "end"
Truth == (Done /\ s.cond = 0) => Met(c, s.it, s.err, s.err0) /\ s.err >= 0
Limit == (Done /\ s.cond = 1) => s.it = c.i_max /\ ~Met(c, s.it, s.err, s.err0)
GaveUp == (Done /\ s.cond = 2) => c.give_up /\ s.it > 0 /\ s.err >= 0
Counts == s.it <= c.i_max /\ s.nlin = s.it /\ s.fun >= s.it
\* In the residual mode, a step is accepted if the error is reduced or the
\* limit of the step size was hit.
Reduced == (s.ph = "lin" /\ s.it > 0 /\ c.mode = "residual") => (Less(s.terr, s.err, c.ls_on) \/ s.L > c.ls_min)
Bounded == s.L <= c.ls_min * (IF c.ls_red > c.ls_red_warp THEN c.ls_red ELSE c.ls_red_warp)
Linear == (c.linear /\ c.i_max = 1 /\ Done /\ s.cond \in {0, 1}) => s.nlin <= 1
Terminates == <>Done
\* Scripts for the real code.
SimInit == Init /\ hist = <<>>
SimNext == /\ Len(hist) < MaxHist /\ UNCHANGED <<c, s, prev>> /\ hist' = Append(hist, RandomElement((0..719) \ {-Len(hist)}))
SimSpec == (c = CHOOSE x \in Confs : TRUE) /\ s = Start(c, <<0, 0>>) /\ prev = -1 /\ hist = <<>> /\ [][SimNext]_vars
EmitHist == Len(hist) = MaxHist => PrintT(<<"@beh", ToJson(hist)>>)
===========================================================================
