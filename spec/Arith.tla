------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Exact arithmetic (C19).  Registers r1..rn hold exact rationals; each    *)
(* step applies a procedure to registers and literals, may keep the result *)
(* in a register, and looks at all of them.  A result is claimed when it,  *)
(* and the products and sums it is made from, fit in 64 bits.              *)
(***************************************************************************)
EXTENDS Path, Bignum

CONSTANTS NReg, Ints, Ratios, Ops, MaxLen, MaxArgs, Sim
\* Ints: integers; Ratios: pairs <<numerator, denominator>> of integers, as they are written

VARIABLES reg
vars == <<reg, hist>>

V == 1..NReg
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
RV(i) == "r" \o Str(i)
Regs(rs) == Words([i \in V |-> TextR(rs[i])])
AllRegs == Words([i \in V |-> RV(i)])

\* an operand: <<expression, value>>
Zero == RInt(OfInt(0))
Lit == {<<TextI(x), RInt(x)>> : x \in Ints} \cup {<<TextI(p[1]) \o "/" \o TextN(p[2][2]), Rat(p[1], p[2])>> : p \in Ratios}
Operand == {<<RV(i), reg[i]>> : i \in V} \cup Lit
Operands(lo) == IF Sim THEN {LET n == RandomElement(lo..MaxArgs) IN [k \in 1..n |-> IF RandomElement(1..3) = 1 THEN LET i == RandomElement(V) IN <<RV(i), reg[i]>> ELSE RandomElement(Lit)]}
                ELSE UNION {[1..n -> Operand] : n \in lo..MaxArgs}
E(f, as) == Call(f, [k \in 1..Len(as) |-> as[k][1]])

\* a partial result is a rational or No: something does not fit
No == <<>>
FitsR(r) == Fits(Num(r)) /\ Fits(Den(r))
\* x, the intermediate values xs
Only(xs, r) == IF \A k \in 1..Len(xs) : Fits(xs[k]) THEN (IF r # No /\ FitsR(r) THEN r ELSE No) ELSE No
Add2(a, b) ==
  IF a = No \/ b = No THEN No
  ELSE LET x == MulI(Num(a), Den(b))
           y == MulI(Num(b), Den(a))
           d == MulI(Den(a), Den(b))
           s == AddI(x, y)
       IN Only(<<x, y, d, s>>, Rat(s, d))
Neg1(a) == IF a = No THEN No ELSE Only(<<>>, <<~a[1] /\ a[2] # <<>>, a[2], a[3]>>)
Sub2(a, b) ==
  IF a = No \/ b = No THEN No
  ELSE LET x == MulI(Num(a), Den(b))
           y == MulI(Num(b), Den(a))
           d == MulI(Den(a), Den(b))
           s == AddI(x, NegI(y))
       IN Only(<<x, y, d, s>>, Rat(s, d))
Mul2(a, b) ==
  IF a = No \/ b = No THEN No
  ELSE LET x == MulI(Num(a), Num(b))
           d == MulI(Den(a), Den(b))
       IN Only(<<x, d>>, Rat(x, d))
\* /: the products of the numerators and of the denominators, unreduced
RECURSIVE DivFold(_, _, _, _)
DivFold(n, d, as, k) ==
  IF ~Fits(n) \/ ~Fits(d) THEN No
  ELSE IF k > Len(as) THEN Only(<<>>, Rat(n, d))
  ELSE DivFold(MulI(n, Den(as[k][2])), MulI(d, Num(as[k][2])), as, k + 1)
\* 0 when it is not claimed
CmpR(a, b) == LET x == MulI(Num(a), Den(b))
                  y == MulI(Num(b), Den(a))
              IN IF Fits(x) /\ Fits(y) THEN <<CmpI(x, y)>> ELSE No
RECURSIVE FoldL(_, _, _, _)
FoldL(Op(_, _), acc, as, k) == IF k > Len(as) THEN acc ELSE FoldL(Op, Op(acc, as[k][2]), as, k + 1)

\* ------------------------------------------------------------------ steps
\* the value v of expression e goes to a register or nowhere, and everything is looked at
Gives(i, e, v) ==
  IF v = No THEN FALSE
  ELSE IF i = 0 THEN UNCHANGED reg /\ Do("(list " \o e \o " " \o AllRegs \o ")", "(" \o TextR(v) \o " " \o Regs(reg) \o ")")
  ELSE /\ reg' = [reg EXCEPT ![i] = v]
       /\ Do("(begin (set! " \o RV(i) \o " " \o e \o ") (list " \o AllRegs \o "))", "(" \o Regs(reg') \o ")")
Says(e, shown) == UNCHANGED reg /\ Do("(list " \o e \o " " \o AllRegs \o ")", "(" \o shown \o " " \o Regs(reg) \o ")")
Fails(e) == UNCHANGED reg /\ Do("(list (bad (lambda () " \o e \o ")) " \o AllRegs \o ")", "(bad " \o Regs(reg) \o ")")

DoAdd(i) == \E as \in Operands(0) : Gives(i, E("+", as), FoldL(Add2, Zero, as, 1))
DoMul(i) == \E as \in Operands(0) : Gives(i, E("*", as), FoldL(Mul2, RInt(OfInt(1)), as, 1))
DoSub(i) == \E as \in Operands(1) : Gives(i, E("-", as), IF Len(as) = 1 THEN Neg1(as[1][2]) ELSE FoldL(Sub2, as[1][2], as, 2))
DoDiv(i) == \E as \in Operands(1) :
  LET n == Len(as)
      z == \E k \in 1..n : (k > 1 \/ n = 1) /\ as[k][2] = Zero
  IN IF z THEN Fails(E("/", as))
     ELSE Gives(i, E("/", as), IF n = 1 THEN DivFold(OfInt(1), OfInt(1), as, 1) ELSE DivFold(Num(as[1][2]), Den(as[1][2]), as, 2))
\* quotient, remainder, modulo
DoIntDiv(i) == \E as \in Operands(2), f \in Pick({"quotient", "remainder", "modulo"}) :
  /\ Len(as) = 2
  /\ LET a == as[1][2]
         b == as[2][2]
         e == E(f, as)
     IN IF ~IsInt(a) \/ ~IsInt(b) \/ b = Zero THEN Fails(e)
        ELSE Gives(i, e, Only(<<>>, RInt(CASE f = "quotient" -> QuoI(Num(a), Num(b)) [] f = "remainder" -> RemI(Num(a), Num(b)) [] OTHER -> ModI(Num(a), Num(b)))))
AllInt(as) == \A k \in 1..Len(as) : IsInt(as[k][2])
Gcd2(a, b) == IF a = No THEN No ELSE RInt(Sgn(FALSE, GcdN(a[2], b[2])))
Lcm2(a, b) == IF a = No THEN No ELSE IF a = Zero \/ b = Zero THEN Zero ELSE Only(<<Sgn(FALSE, b[2])>>, RInt(Sgn(FALSE, MulN(DivN(a[2], GcdN(a[2], b[2]))[1], b[2]))))
DoGcd(i) == \E as \in Operands(0) : IF ~AllInt(as) THEN Fails(E("gcd", as)) ELSE Gives(i, E("gcd", as), Only(<<>>, FoldL(Gcd2, Zero, as, 1)))
DoLcm(i) == \E as \in Operands(0) : IF ~AllInt(as) THEN Fails(E("lcm", as)) ELSE Gives(i, E("lcm", as), FoldL(Lcm2, RInt(OfInt(1)), as, 1))
DoAbs(i) == \E as \in Operands(1) : Len(as) = 1 /\ Gives(i, E("abs", as), Only(<<>>, <<FALSE, as[1][2][2], as[1][2][3]>>))
\* an integer to a small power, or a unit to any
DoExpt(i) == \E as \in Operands(2) : \E n \in Pick((-40)..70) :
  /\ Len(as) = 2
  /\ LET x == as[1][2]
         m == as[2][2]
         unit == x[2] = <<>> \/ x[2] = One
         e == IF unit THEN E("expt", as) ELSE Call("expt", <<as[1][1], Str(n)>>)
         neg == IF unit THEN m[1] ELSE n < 0
         odd == IF unit THEN m[2] # <<>> /\ m[2][1] % 2 = 1 ELSE n % 2 = 1
     IN /\ IsInt(x) /\ IsInt(m) /\ (Sim \/ unit \/ as[1] = as[2])
        /\ IF x = Zero /\ neg THEN Fails(e)
           ELSE IF unit THEN Gives(i, e, IF (unit /\ m = Zero) THEN RInt(OfInt(1)) ELSE <<x[1] /\ odd, x[2], One>>)
           ELSE Gives(i, e, LET p == PowI(Num(x), IF n < 0 THEN -n ELSE n) IN Only(<<p>>, IF n < 0 THEN Rat(OfInt(1), p) ELSE RInt(p)))
Holds(f, c) == CASE f = "=" -> c = 0 [] f = "<" -> c < 0 [] f = ">" -> c > 0 [] f = "<=" -> c <= 0 [] OTHER -> c >= 0
DoCompare == \E as \in Operands(0), f \in Pick({"=", "<", ">", "<=", ">="}) :
  LET cs == [k \in 1..(IF Len(as) > 1 THEN Len(as) - 1 ELSE 0) |-> CmpR(as[k][2], as[k + 1][2])]
  IN (\A k \in 1..Len(cs) : cs[k] # No) /\ Says(E(f, as), BoolText(\A k \in 1..Len(cs) : Holds(f, cs[k][1])))
RECURSIVE Best(_, _, _, _)
Best(acc, as, k, c) == IF acc = No THEN No ELSE IF k > Len(as) THEN acc
                       ELSE LET d == CmpR(as[k][2], acc) IN IF d = No THEN No ELSE Best(IF d[1] = c THEN as[k][2] ELSE acc, as, k + 1, c)
DoMax(i) == \E as \in Operands(1) : \E f \in Pick({"max", "min"}) : Gives(i, E(f, as), Best(as[1][2], as, 2, IF f = "max" THEN 1 ELSE -1))
DoPred == \E as \in Operands(1) : Len(as) = 1 /\ \E f \in Pick({"zero?", "positive?", "negative?", "odd?", "even?", "integer?", "rational?", "exact?", "inexact?", "number?", "real?"}) :
  LET x == as[1][2]
      e == E(f, as)
      odd == x[2] # <<>> /\ x[2][1] % 2 = 1
  IN CASE f = "zero?" -> Says(e, BoolText(x[2] = <<>>)) [] f = "positive?" -> Says(e, BoolText(x[2] # <<>> /\ ~x[1])) [] f = "negative?" -> Says(e, BoolText(x[1]))
       [] f \in {"odd?", "even?"} -> IF IsInt(x) THEN Says(e, BoolText((f = "odd?") = odd)) ELSE Fails(e)
       [] f = "integer?" -> Says(e, BoolText(IsInt(x))) [] f = "inexact?" -> Says(e, "#f") [] OTHER -> Says(e, "#t")
\* to text and back
DoText(i) == \E as \in Operands(1) : Len(as) = 1 /\ LET x == as[1][2] IN
  IF i = 0 THEN Says("(number->string " \o as[1][1] \o ")", "\"" \o TextR(x) \o "\"")
  ELSE Gives(i, "(read (open-input-string (number->string " \o as[1][1] \o ")))", x)
DoBack(i) == \E as \in Operands(1) : Len(as) = 1 /\ IsInt(as[1][2]) /\ Gives(i, "(string->number (number->string " \o as[1][1] \o "))", as[1][2])
\* the same number, however it was made
DoSame == \E as \in Operands(2) : Len(as) = 2 /\
  LET same == BoolText(as[1][2] = as[2][2])
      a == as[1][1]
      b == as[2][1]
  IN Says("(list (eqv? " \o a \o " " \o b \o ") (equal? " \o a \o " " \o b \o "))", "(" \o same \o " " \o same \o ")")
Wrong == {"'a", "\"1\"", "#\\1", "'()", "(list 1)", "#t", "(vector 1)", "car"}
DoWrong == \E as \in Operands(1), w \in Pick(Wrong) :
  \E f \in Pick({"+", "-", "*", "/", "<", ">", "<=", ">=", "=", "max", "min"}), k \in Pick({0, 1}) :
    LET a == as[1][1]
    IN IF as[1][2] = Zero THEN FALSE ELSE Fails(Call(f, IF k = 0 THEN <<w, a>> ELSE <<a, w>>))
DoWrong1 == \E w \in Pick(Wrong), f \in Pick({"+", "-", "*", "/", "abs", "zero?", "positive?", "negative?", "odd?", "even?", "max", "min", "gcd", "lcm", "number->string", "sqrt"}) : Fails(Call(f, <<w>>))
DoWrong2 == \E w \in Pick(Wrong), f \in Pick({"quotient", "remainder", "modulo", "gcd", "lcm", "expt"}) : \E k \in Pick({0, 1}) : Fails(Call(f, IF k = 0 THEN <<w, "2">> ELSE <<"2", w>>))

Target == {"add", "mul", "sub", "div", "intdiv", "gcd", "lcm", "abs", "expt", "max", "text", "back"}
Step(op, i) ==
  CASE op = "add" -> DoAdd(i) [] op = "mul" -> DoMul(i) [] op = "sub" -> DoSub(i) [] op = "div" -> DoDiv(i) [] op = "intdiv" -> DoIntDiv(i) [] op = "gcd" -> DoGcd(i) [] op = "lcm" -> DoLcm(i)
    [] op = "abs" -> DoAbs(i) [] op = "expt" -> DoExpt(i) [] op = "max" -> DoMax(i) [] op = "text" -> DoText(i) [] op = "back" -> DoBack(i)
    [] op = "compare" -> DoCompare [] op = "pred" -> DoPred [] op = "same" -> DoSame [] op = "wrong" -> DoWrong \/ DoWrong1 \/ DoWrong2
    [] op = "lit" -> \E l \in Pick(Lit) : Gives(IF i = 0 THEN 1 ELSE i, l[1], l[2])

Init == reg = [i \in V |-> Zero] /\ hist = [i \in V |-> <<"!!(define " \o RV(i) \o " 0)", "">>]
\* in a random run, "lit" is the way on when another step is not claimed
Next == (Sim \/ Len(hist) < MaxLen + NReg) /\ \E op \in (IF Sim THEN {RandomElement(Ops), RandomElement(Ops), "lit"} ELSE Ops), i \in Pick(IF Sim \/ NReg > 1 THEN 0..NReg ELSE {1}) : (Sim \/ op \in Target \/ i = 1) /\ Step(op, i)
View == reg
Bound == TRUE
Inv == \A i \in V : FitsR(reg[i]) /\ reg[i][3] # <<>> /\ GcdN(reg[i][2], reg[i][3]) = One
=============================================================================
