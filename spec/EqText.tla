----------------------------- MODULE EqText -----------------------------
(* The meaning of equation text.  A prefactor is a sequence of tokens;     *)
(* numbers are records [s |-> text, re |-> .., im |-> ..] in 1/20.         *)
EXTENDS Integers, Sequences, FiniteSets
C(re, im) == [re |-> re, im |-> im]
Zero == C(0, 0)
Add(a, b) == C(a.re + b.re, a.im + b.im)
Scale(k, a) == C(k * a.re, k * a.im)
IsNum(x) == x.k = "n"
Is(x, c) == x.k = c
\* Recursive descent: <<value, next position>>.
RECURSIVE Sum(_, _), Rest(_, _, _), Operand(_, _)
Operand(ts, p) ==
  CASE IsNum(ts[p]) -> <<C(ts[p].re, ts[p].im), p + 1>>
    [] Is(ts[p], "+") -> Operand(ts, p + 1)
    [] Is(ts[p], "-") -> LET a == Operand(ts, p + 1) IN <<Scale(-1, a[1]), a[2]>>
    [] OTHER -> LET a == Sum(ts, p + 1) IN <<a[1], a[2] + 1>>     \* ( ... )
Rest(ts, v, p) ==
  IF p > Len(ts) \/ ts[p].k = ")" THEN <<v, p>>
  ELSE LET a == Operand(ts, p + 1)
       IN Rest(ts, Add(v, IF ts[p].k = "-" THEN Scale(-1, a[1]) ELSE a[1]), a[2])
Sum(ts, p) == LET a == Operand(ts, p) IN Rest(ts, a[1], a[2])
Value(ts) == IF ts = <<>> THEN C(20, 0) ELSE Sum(ts, 1)[1]

\* The same by signs of the enclosing parentheses: a stack of signs.
RECURSIVE BySigns(_, _, _, _, _)
BySigns(ts, p, stack, cur, acc) ==
  IF p > Len(ts) THEN acc
  ELSE CASE IsNum(ts[p]) -> BySigns(ts, p + 1, stack, stack[Len(stack)],
              Add(acc, Scale(cur, C(ts[p].re, ts[p].im))))
         [] Is(ts[p], "+") -> BySigns(ts, p + 1, stack, cur, acc)
         [] Is(ts[p], "-") -> BySigns(ts, p + 1, stack, -cur, acc)
         [] Is(ts[p], "(") -> BySigns(ts, p + 1, Append(stack, cur), cur, acc)
         [] OTHER -> LET s == SubSeq(stack, 1, Len(stack) - 1)
                     IN BySigns(ts, p + 1, s, s[Len(s)], acc)
Value2(ts) == BySigns(ts, 1, <<1>>, 1, Zero)

\* Multiplier of a term: its prefactor or sign and the side of the equation.
Mult(term) == Scale(IF term.side = "r" THEN -1 ELSE 1,
                    IF term.pre # <<>> THEN Value(term.pre)
                    ELSE Scale(IF term.sign = "-" THEN -1 ELSE 1, C(20, 0)))
=========================================================================
