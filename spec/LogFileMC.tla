----------------------------- MODULE LogFileMC -----------------------------
EXTENDS LogFile, Json, TLC
CONSTANTS MaxOps, Xs, MaxHist
VARIABLES lg, lines, n, hist
vars == <<lg, lines, n, hist>>
Starts == {<<1>>, <<1, 1>>, <<2>>}
Init == \E gs \in Starts : lg = New(gs) /\ lines = <<Header(gs)>> /\ n = 0 /\ hist = <<>>
Igs == (SUBSET (1..Len(lg.groups))) \ {{}}
Write(ls) == lines' = (IF lg.open THEN lines \o ls ELSE lines)
DoLog == \E igs \in Igs, x \in [1..Len(lg.groups) -> {<<>>} \cup {<<v>> : v \in Xs}] :
         LET ys == [k \in 1..Len(Curves(lg, igs)) |-> 100 * n + k] IN
         /\ \A g \in 1..Len(lg.groups) : (g \notin igs) => x[g] = <<>>
         /\ lg' = Log(lg, igs, x, ys, 1) /\ Write(LogLines(lg, igs, x, ys, 1))
DoVLine == \E igs \in Igs : lg' = VLine(lg, igs) /\ Write(VLineLines(lg, igs))
DoAdd == Len(lg.groups) < 2 /\ \E k \in {1, 2} : lg' = AddGroup(lg, k) /\ Write(<<Header(lg'.groups)>>)
DoClose == lg.open /\ lg' = Close(lg) /\ Write(<<EndLine>>)
Next == n < MaxOps /\ n' = n + 1 /\ UNCHANGED hist /\ (DoLog \/ DoVLine \/ DoAdd \/ DoClose)
Spec == Init /\ [][Next]_vars
\* What is read at any time is what was logged so far.
ReadNow == Read(lines, [groups |-> <<>>, curves |-> <<>>])
Faithful == ReadNow.curves = lg.curves \/ ~lg.open
FaithfulClosed == LET r == ReadNow IN \A c \in 1..Len(r.curves) : r.curves[c] = lg.curves[c]
Described == lg.open => ReadNow.groups = lg.groups
RoundTrip == LET r == ReadNow IN Read(Rewrite(r), [groups |-> <<>>, curves |-> <<>>]) = r
\* Curves of a group share the x values.
Shared == lg.open => \A c \in 1..Len(lg.curves) : lg.curves[c].xs = lg.xs[GroupOf(lg.groups, c)]
          \/ Len(lg.curves[c].xs) < Len(lg.xs[GroupOf(lg.groups, c)])
Increasing == (Xs = {}) => \A g \in 1..Len(lg.groups) : \A k \in 1..Len(lg.xs[g]) : lg.xs[g][k] = k - 1
\* Random histories for the real code.
SimInit == lg = New(<<1>>) /\ lines = <<>> /\ n = 0 /\ hist = <<>>
SimNext == /\ Len(hist) < MaxHist /\ UNCHANGED <<lg, lines, n>>
           /\ hist' = Append(hist, [op |-> <<"log", "logx", "logx", "some", "log", "vline", "vsome", "add", "bad", "log", "some", "vsome", "logx", "close", "read">>[RandomElement((1..15) \ {-Len(hist)})],
                                    w |-> RandomElement((0..999) \ {-Len(hist)})])
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) = MaxHist => PrintT(<<"@beh", ToJson(hist)>>)
===========================================================================
