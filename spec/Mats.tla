------------------------------- MODULE Mats -------------------------------
(* A material: its data per (region, integration order) key, when they are *)
(* computed, reused, dropped.  A datum is the id of the function call that *)
(* produced it (0: constant values, negative: given by the user).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* Configuration c: kind ("td", "st"), typ ("fn", "const", "reg"), sconst.
Fresh(c) == [const |-> c.typ # "fn", fn |-> 1, extra |-> 0, user |-> FALSE,
             datas |-> <<>>, sp |-> "no", sc |-> FALSE]
NonEmpty(s) == DOMAIN s.datas # {} \/ s.sp # "no" \/ s.sc
Skip(c, s, mode) == mode = "normal" /\ NonEmpty(s) /\ (s.user \/ c.kind = "st")
Drop(s) == [s EXCEPT !.datas = <<>>, !.sp = "no", !.sc = FALSE]
Clear(c, s, mode) == IF mode = "force" \/ (mode = "normal" /\ NonEmpty(s) /\ ~s.const)
                     THEN Drop(s) ELSE s
\* The keys to be evaluated by an update, each exactly once.
Needed(c, s, mode, K) == IF Skip(c, s, mode) THEN {}
                         ELSE K \ DOMAIN Clear(c, s, mode).datas
NeedsSpecial(c, s, mode) == ~Skip(c, s, mode) /\ Clear(c, s, mode).sp = "no"
\* id(k): the call evaluating k; sp: what the special call returned.
Update(c, s, mode, K, id(_), sp) ==
  IF Skip(c, s, mode) THEN s
  ELSE LET z == Clear(c, s, mode) N == Needed(c, s, mode, K) IN
    [z EXCEPT !.datas = [k \in DOMAIN z.datas \cup K |->
                           IF k \in N THEN (IF s.const THEN 0 ELSE id(k)) ELSE z.datas[k]],
              !.sp = IF s.const THEN "const" ELSE IF NeedsSpecial(c, s, mode) THEN sp ELSE z.sp,
              !.sc = @ \/ c.sconst]
Reset(s) == [Drop(s) EXCEPT !.user = FALSE, !.extra = 0]
SetFn(s, f) == [Reset(s) EXCEPT !.fn = f, !.const = FALSE]
SetUser(s, d) == [Drop(s) EXCEPT !.user = TRUE, !.datas = d]
SetExtra(s, x) == [s EXCEPT !.extra = x]
===========================================================================
