------------------------------ MODULE MatsMC ------------------------------
EXTENDS Mats, SequencesExt, Json
CONSTANTS MaxLen, Keys, MaxTime
VARIABLES c, s, time, calls, last, hist
vars == <<c, s, time, calls, last, hist>>
Configs == [kind : {"td", "st"}, typ : {"fn", "const"}, sconst : {FALSE}]
Modes == {"normal", "update", "force"}
Init == /\ c \in Configs /\ s = Fresh(c) /\ time = 0 /\ calls = <<>> /\ hist = <<>>
        /\ last = [op |-> "init"]
\* A call: what the function has seen.
Upd(mode, K) ==
  LET N == Needed(c, s, mode, K)
      q == SetToSeq(N)
      new == IF s.const THEN <<>> ELSE [j \in DOMAIN q |->
                [key |-> q[j], time |-> time, fn |-> s.fn, extra |-> s.extra]]
      id(k) == Len(calls) + (CHOOSE j \in DOMAIN q : q[j] = k) IN
  /\ calls' = calls \o new
  /\ s' = Update(c, s, mode, K, id, "set")
  /\ last' = [op |-> "upd", mode |-> mode, keys |-> K, old |-> s]
  /\ UNCHANGED <<c, time>>
Other(op, y) == s' = y /\ last' = [op |-> op, old |-> s] /\ UNCHANGED <<c, time, calls>>
Act(a) ==
  \/ a.op = "upd" /\ Upd(a.mode, a.keys)
  \/ a.op = "tick" /\ time < MaxTime /\ time' = time + 1 /\ last' = [op |-> "tick", old |-> s] /\ UNCHANGED <<c, s, calls>>
  \/ a.op = "reset" /\ Other("reset", Reset(s))
  \/ a.op = "setfn" /\ Other("setfn", SetFn(s, 3 - s.fn))
  \/ a.op = "user" /\ Other("user", SetUser(s, [k \in a.keys |-> -1]))
  \/ a.op = "extra" /\ Other("extra", SetExtra(s, 1))
Acts == [op : {"upd"}, mode : Modes, keys : SUBSET Keys] \cup [op : {"tick", "reset", "setfn", "extra"}]
        \cup [op : {"user"}, keys : SUBSET Keys \ {{}}]
Next == Len(hist) < MaxLen /\ \E a \in Acts : Act(a) /\ hist' = Append(hist, 0)
Spec == Init /\ [][Next]_vars
Is(m) == last.op = "upd" /\ last.mode = m
\* Data of a forced update, of a normal update of a time dependent function.
FreshData == (Is("force") \/ (Is("normal") /\ c.kind = "td")) /\ ~s.const /\ ~s.user =>
   \A k \in last.keys : calls[s.datas[k]] = [key |-> k, time |-> time, fn |-> s.fn, extra |-> s.extra]
\* Data are never those of another key or of a replaced function.
OwnKey == \A k \in DOMAIN s.datas : s.datas[k] > 0 =>
             calls[s.datas[k]].key = k /\ calls[s.datas[k]].fn = s.fn
\* Only a forced update or an explicit request drops data that should stay.
Stays == (last.op = "upd" /\ ~Is("force") /\ (c.kind = "st" \/ Is("update") \/ last.old.const
                                              \/ last.old.user)) =>
   \A k \in DOMAIN last.old.datas : k \in DOMAIN s.datas /\ s.datas[k] = last.old.datas[k]
\* An update that makes anything makes all that was requested.
Complete == (last.op = "upd" /\ (Is("update") \/ Is("force") \/ ~NonEmpty(last.old))) =>
   last.keys \subseteq DOMAIN s.datas
ConstIsConst == s.const => \A k \in DOMAIN s.datas : s.datas[k] <= 0
View == <<c, s, time, Len(calls), last, Len(hist),
          [k \in DOMAIN s.datas |-> IF s.datas[k] > 0 THEN calls[s.datas[k]] ELSE <<>>]>>
\* --- generated histories
Rnd(S) == RandomElement(S)
SimNext == \E op \in {RandomElement({"upd", "upd1", "upd2", "upd3", "upd4", "tick", "tick1", "reset", "setfn",
                        "user", "extra", "fextra", "get", "get1", "eval"} \ {ToString(Len(hist))})} :
  hist' = Append(hist, [op |-> IF op \in {"upd1", "upd2", "upd3", "upd4"} THEN "upd" ELSE IF op = "tick1" THEN "tick"
                               ELSE IF op = "get1" THEN "get" ELSE op,
     mode |-> Rnd({"normal", "normal1", "update", "force"} \ {ToString(Len(hist))}),
     a |-> Rnd(0..99 \cup {-1 - Len(hist)}), b |-> Rnd(0..99 \cup {-1 - Len(hist)})])
  /\ UNCHANGED <<c, s, time, calls, last>>
SimInit == c = [kind |-> "td", typ |-> "fn", sconst |-> FALSE] /\ s = Fresh(c) /\ time = 0 /\ calls = <<>>
           /\ hist = <<>> /\ last = [op |-> "init"]
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) < MaxLen \/ PrintT(<<"@beh", ToJson(hist)>>)
Stop == Len(hist) < MaxLen
===========================================================================
