------------------------------ MODULE LogFile ------------------------------
(* A log of curves in groups sharing the x values, written line by line    *)
(* into a text file that is read back at any time, also when the writer    *)
(* has died.                                                               *)
(*                                                                         *)
(* lg.groups: the numbers of curves of the groups; lg.xs[g]: the x values  *)
(* of a group; lg.curves[c]: [xs, ys, vs] of a curve: the logged values    *)
(* and the x positions of the vertical lines; lg.open: lines are written.  *)
EXTENDS Integers, Sequences
Curve0 == [xs |-> <<>>, ys |-> <<>>, vs |-> <<>>]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Offset(gs, g) == Sum(SubSeq(gs, 1, g - 1))
GroupOf(gs, c) == CHOOSE g \in 1..Len(gs) : Offset(gs, g) < c /\ c <= Offset(gs, g) + gs[g]
New(gs) == [groups |-> gs, xs |-> [g \in 1..Len(gs) |-> <<>>], curves |-> [c \in 1..Sum(gs) |-> Curve0], open |-> TRUE]
AddGroup(lg, n) == [lg EXCEPT !.groups = Append(@, n), !.xs = Append(@, <<>>),
                              !.curves = @ \o [c \in 1..n |-> Curve0]]
Last(s) == s[Len(s)]
\* The next x value of a group: the given one, or one more than the last.
\* x: <<>> or <<value>>; one: the unit.
NextX(xs, x, one) == IF x # <<>> THEN x[1] ELSE IF xs = <<>> THEN 0 ELSE Last(xs) + one
Curves(lg, igs) == SelectSeq([c \in 1..Sum(lg.groups) |-> c], LAMBDA c : GroupOf(lg.groups, c) \in igs)
\* Log the values ys (one for each of the curves of the groups igs, in the
\* order of the curves); given[g]: the x values given.
Valid(lg, igs, ys, full) == IF full THEN Len(ys) = Sum(lg.groups) ELSE Len(ys) >= Len(Curves(lg, igs))
Log(lg, igs, given, ys, one) ==
  LET cs == Curves(lg, igs)
      xs == [g \in 1..Len(lg.groups) |-> IF g \in igs THEN Append(lg.xs[g], NextX(lg.xs[g], given[g], one)) ELSE lg.xs[g]]
      Pos(c) == CHOOSE k \in 1..Len(cs) : cs[k] = c
      Put(c) == IF GroupOf(lg.groups, c) \in igs
                THEN [lg.curves[c] EXCEPT !.xs = Append(@, Last(xs[GroupOf(lg.groups, c)])), !.ys = Append(@, ys[Pos(c)])]
                ELSE lg.curves[c]
  IN [lg EXCEPT !.xs = xs, !.curves = IF lg.open THEN [c \in 1..Sum(lg.groups) |-> Put(c)] ELSE lg.curves]
\* A line at the current position of curves that have some.
VLine(lg, igs) ==
  LET Put(c) == IF GroupOf(lg.groups, c) \in igs /\ lg.curves[c].xs # <<>>
                THEN [lg.curves[c] EXCEPT !.vs = Append(@, Last(lg.curves[c].xs))] ELSE lg.curves[c]
  IN [lg EXCEPT !.curves = IF lg.open THEN [c \in 1..Sum(lg.groups) |-> Put(c)] ELSE lg.curves]
Close(lg) == [lg EXCEPT !.open = FALSE]

\* ---- The file ---------------------------------------------------------
Header(gs) == <<"h", gs>>
DataLine(c, x, y) == <<"d", c, x, y>>
VLineLine(c) == <<"v", c>>
EndLine == <<"e">>
LogLines(lg, igs, given, ys, one) ==
  LET cs == Curves(lg, igs) IN
  [k \in 1..Len(cs) |-> LET g == GroupOf(lg.groups, cs[k]) IN DataLine(cs[k], NextX(lg.xs[g], given[g], one), ys[k])]
VLineLines(lg, igs) == LET cs == Curves(lg, igs) IN [k \in 1..Len(cs) |-> VLineLine(cs[k])]
\* The reader: lines in the order of the file.
RECURSIVE Read(_, _)
Read(lines, out) ==
  IF lines = <<>> THEN out
  ELSE LET l == Head(lines)
           o == CASE l[1] = "h" -> [groups |-> l[2], curves |-> out.curves \o [c \in 1..(Sum(l[2]) - Len(out.curves)) |-> Curve0]]
                  [] l[1] = "d" -> [out EXCEPT !.curves[l[2]] = [@ EXCEPT !.xs = Append(@, l[3]), !.ys = Append(@, l[4])]]
                  [] l[1] = "v" -> IF out.curves[l[2]].xs = <<>> THEN out
                                   ELSE [out EXCEPT !.curves[l[2]].vs = Append(@, Last(out.curves[l[2]].xs))]
                  [] OTHER -> out
       IN Read(Tail(lines), o)
\* The writer of a log read: the lines of each curve in turn, the vertical
\* lines are placed greedily after the first x value equal to theirs.
RECURSIVE WriteCurve(_, _, _, _, _)
WriteCurve(c, xs, ys, vs, drain) ==
  IF drain # <<>> /\ vs # <<>> /\ Head(vs) = drain[1] THEN <<VLineLine(c)>> \o WriteCurve(c, xs, ys, Tail(vs), drain)
  ELSE IF xs = <<>> THEN <<>>
  ELSE <<DataLine(c, Head(xs), Head(ys))>> \o WriteCurve(c, Tail(xs), Tail(ys), vs, <<Head(xs)>>)
RECURSIVE WriteAll(_, _)
WriteAll(curves, c) == IF c > Len(curves) THEN <<EndLine>>
                       ELSE WriteCurve(c, curves[c].xs, curves[c].ys, curves[c].vs, <<>>) \o WriteAll(curves, c + 1)
Rewrite(rd) == <<Header(rd.groups)>> \o WriteAll(rd.curves, 1)
===========================================================================
