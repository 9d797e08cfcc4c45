------------------------------ MODULE Inexact ------------------------------
(***************************************************************************)
(* Exact and inexact numbers together (C19).  A number is an exact         *)
(* rational with a flag that says whether it is held inexactly.  One       *)
(* inexact operand makes the result inexact; the result is claimed where   *)
(* it, and every number on the way to it, is one that an inexact number    *)
(* can hold without rounding: a whole number of at most 53 bits, or less   *)
(* than 10^9 with a denominator of 2, 4, 8 or 16.                          *)
(***************************************************************************)
EXTENDS Path, Bignum

CONSTANTS NReg, Ints, Ratios, Floats, Ops, MaxLen, MaxArgs, Sim
\* Ints: integers; Ratios, Floats: pairs <<numerator, denominator>> of integers

VARIABLES reg
vars == <<reg, hist>>

V == 1..NReg
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
RV(i) == "r" \o Str(i)
AllRegs == Words([i \in V |-> RV(i)])

No == <<>>
Ex(r) == <<FALSE, r>>
Limit == PowI(OfInt(2), 53)
Billion == PowI(OfInt(10), 9)
Dyadic(d) == d \in {<<1>>, <<2>>, <<4>>, <<8>>, <<16>>}
\* a double holds r exactly, and so it is printed
Holdable(r) == IF IsInt(r) THEN CmpN(r[2], Limit[2]) <= 0 ELSE Dyadic(r[3]) /\ CmpN(DivN(r[2], r[3])[1], Billion[2]) < 0
Modest(r) == CmpN(r[2], Limit[2]) <= 0 /\ CmpN(r[3], Billion[2]) <= 0
Is0(r) == r[2] = <<>>

\* --------------------------------------------------------------- how they look
Digits4(n) == IF n = 0 THEN "" ELSE LET t == Pad(n)
                                        k == CHOOSE j \in 1..4 : n % (10 ^ (4 - j)) = 0 /\ \A i \in 1..(j - 1) : n % (10 ^ (4 - i)) # 0
                                    IN Str(n \div (10 ^ (4 - k)))
\* the decimals of n / 10000, without zeros at the end: leading zeros are kept by their number
RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN "" ELSE "0" \o Zeros(k - 1)
Width(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE 4
Decimals(n) == IF n = 0 THEN "0" ELSE Zeros(4 - Width(n)) \o Digits4(n)
TextX(r) == LET q == DivN(r[2], r[3])
            IN (IF r[1] THEN "-" ELSE "") \o TextN(q[1]) \o "." \o Decimals((Native(q[2]) * 10000) \div Native(r[3]))
Text(v) == IF v[1] THEN TextX(v[2]) ELSE TextR(v[2])
\* as the harness shows it, from the number itself
Show(v) == IF ~v[1] THEN TextR(v[2]) ELSE "~" \o (IF IsInt(v[2]) THEN TextI(Num(v[2])) ELSE TextX(v[2]))
Regs(rs) == Words([i \in V |-> Show(rs[i])])
\* other ways to write an inexact number
Spell(p, how) ==
  LET r == Rat(p[1], p[2])
      q == DivN(r[2], r[3])
      frac == (Native(q[2]) * 10000) \div Native(r[3])
      s == IF r[1] THEN "-" ELSE ""
  IN CASE how = "plain" -> TextX(r)
       [] how = "zeros" -> TextX(r) \o "00"
       [] how = "point" -> IF IsInt(r) THEN s \o TextN(q[1]) \o "." ELSE TextX(r)
       [] how = "exp" -> s \o TextN(AddN(MulN(q[1], OfNat(10000)), OfNat(frac))) \o "e-4"
       [] how = "Exp" -> TextX(r) \o "E0"
       [] how = "plus" -> IF r[1] THEN TextX(r) ELSE "+" \o TextX(r)
       [] OTHER -> TextX(r) \o "e+00"
Spellings == {"plain", "zeros", "point", "exp", "Exp", "plus", "e+"}
LitF == {<<Spell(p, "plain"), <<TRUE, Rat(p[1], p[2])>>>> : p \in Floats}
LitE == {<<TextI(x), Ex(RInt(x))>> : x \in Ints} \cup {<<TextI(p[1]) \o "/" \o TextN(p[2][2]), Ex(Rat(p[1], p[2]))>> : p \in Ratios}
Lit == LitF \cup LitE
Operand == {<<RV(i), reg[i]>> : i \in V} \cup Lit
Operands(lo) == IF Sim THEN {LET n == RandomElement(lo..MaxArgs) IN [k \in 1..n |-> IF RandomElement(1..3) = 1 THEN LET i == RandomElement(V) IN <<RV(i), reg[i]>> ELSE RandomElement(Lit)]}
                ELSE UNION {[1..n -> Operand] : n \in lo..MaxArgs}
E(f, as) == Call(f, [k \in 1..Len(as) |-> as[k][1]])

\* ------------------------------------------------------------------ computing
AddQ(a, b) == Rat(AddI(MulI(Num(a), Den(b)), MulI(Num(b), Den(a))), MulI(Den(a), Den(b)))
NegQ(a) == <<~a[1] /\ a[2] # <<>>, a[2], a[3]>>
MulQ(a, b) == Rat(MulI(Num(a), Num(b)), MulI(Den(a), Den(b)))
DivQ(a, b) == Rat(MulI(Num(a), Den(b)), MulI(Den(a), Num(b)))
CmpQ(a, b) == CmpI(MulI(Num(a), Den(b)), MulI(Num(b), Den(a)))
\* an operation on two numbers: inexact if one of them is
Op2(Op(_, _), a, b) ==
  IF a = No \/ b = No THEN No
  ELSE LET r == Op(a[2], b[2])
       IN IF a[1] \/ b[1] THEN (IF Holdable(a[2]) /\ Holdable(b[2]) /\ Holdable(r) THEN <<TRUE, r>> ELSE No)
          ELSE IF Modest(r) THEN Ex(r) ELSE No
Add2(a, b) == Op2(AddQ, a, b)
Sub2(a, b) == LET S(x, y) == AddQ(x, NegQ(y)) IN Op2(S, a, b)
\* the sign of an inexact zero that multiplication or division gives is not claimed
NoZero(v) == IF v # No /\ v[1] /\ Is0(v[2]) THEN No ELSE v
Mul2(a, b) == NoZero(Op2(MulQ, a, b))
Div2(a, b) == NoZero(Op2(DivQ, a, b))
RECURSIVE FoldL(_, _, _, _)
FoldL(Op(_, _), acc, as, k) == IF k > Len(as) THEN acc ELSE FoldL(Op, Op(acc, as[k][2]), as, k + 1)
One1 == Ex(RInt(OfInt(1)))
Zero1 == Ex(RInt(OfInt(0)))
AnyInexact(as) == \E k \in 1..Len(as) : as[k][2][1]

Gives(i, e, v) ==
  IF v = No THEN FALSE
  ELSE IF i = 0 THEN UNCHANGED reg /\ Do("(list " \o e \o " " \o AllRegs \o ")", "(" \o Show(v) \o " " \o Regs(reg) \o ")")
  ELSE /\ reg' = [reg EXCEPT ![i] = v]
       /\ Do("(begin (set! " \o RV(i) \o " " \o e \o ") (list " \o AllRegs \o "))", "(" \o Regs(reg') \o ")")
Says(e, shown) == UNCHANGED reg /\ Do("(list " \o e \o " " \o AllRegs \o ")", "(" \o shown \o " " \o Regs(reg) \o ")")
Fails(e) == UNCHANGED reg /\ Do("(list (bad (lambda () " \o e \o ")) " \o AllRegs \o ")", "(bad " \o Regs(reg) \o ")")

DoAdd(i) == \E as \in Operands(0) : Gives(i, E("+", as), FoldL(Add2, Zero1, as, 1))
DoMul(i) == \E as \in Operands(0) : Gives(i, E("*", as), FoldL(Mul2, One1, as, 1))
DoSub(i) == \E as \in Operands(1) : Gives(i, E("-", as), IF Len(as) = 1 THEN NoZero(<<as[1][2][1], NegQ(as[1][2][2])>>) ELSE FoldL(Sub2, as[1][2], as, 2))
\* all are divided inexactly if one of them is inexact, wherever it is
DoDiv(i) == \E as \in Operands(1) :
  LET n == Len(as)
      z == \E k \in 1..n : (k > 1 \/ n = 1) /\ Is0(as[k][2][2])
      bs == [k \in 1..n |-> <<as[k][1], <<AnyInexact(as), as[k][2][2]>>>>]
  IN IF z THEN Fails(E("/", as))
     ELSE Gives(i, E("/", as), IF n = 1 THEN Div2(One1, bs[1][2]) ELSE FoldL(Div2, bs[1][2], bs, 2))
DoAbs(i) == \E as \in Operands(1) : Len(as) = 1 /\ Gives(i, E("abs", as), <<as[1][2][1], <<FALSE, as[1][2][2][2], as[1][2][2][3]>>>>)
RECURSIVE Best(_, _, _, _)
Best(acc, as, k, c) == IF k > Len(as) THEN acc ELSE Best(IF CmpQ(as[k][2][2], acc) = c THEN as[k][2][2] ELSE acc, as, k + 1, c)
DoMax(i) == \E as \in Operands(1), f \in Pick({"max", "min"}) :
  LET b == Best(as[1][2][2], as, 2, IF f = "max" THEN 1 ELSE -1)
  IN Gives(i, E(f, as), IF AnyInexact(as) THEN (IF Holdable(b) THEN <<TRUE, b>> ELSE No) ELSE Ex(b))
\* the square root of the square of a number, which is inexact
DoSqrt(i) == \E as \in Operands(1) : Len(as) = 1 /\
  LET x == as[1][2]
      y == MulQ(x[2], x[2])
  IN IF x[2][1] THEN Fails(E("sqrt", as))
     ELSE IF ~Holdable(y) \/ ~Holdable(x[2]) THEN FALSE ELSE Gives(i, "(sqrt (* " \o as[1][1] \o " " \o as[1][1] \o "))", <<TRUE, x[2]>>)
Holds(f, c) == CASE f = "=" -> c = 0 [] f = "<" -> c < 0 [] f = ">" -> c > 0 [] f = "<=" -> c <= 0 [] OTHER -> c >= 0
DoCompare == \E as \in Operands(1), f \in Pick({"=", "<", ">", "<=", ">="}) :
  Says(E(f, as), BoolText(\A k \in 1..(Len(as) - 1) : Holds(f, CmpQ(as[k][2][2], as[k + 1][2][2]))))
DoPred == \E as \in Operands(1), f \in Pick({"zero?", "positive?", "negative?", "odd?", "even?", "exact?", "inexact?", "number?", "real?", "complex?"}) : Len(as) = 1 /\
  LET x == as[1][2][2]
      e == E(f, as)
      odd == x[2] # <<>> /\ x[2][1] % 2 = 1
  IN CASE f = "zero?" -> Says(e, BoolText(Is0(x))) [] f = "positive?" -> Says(e, BoolText(~Is0(x) /\ ~x[1])) [] f = "negative?" -> Says(e, BoolText(x[1]))
       [] f \in {"odd?", "even?"} -> IF IsInt(x) THEN Says(e, BoolText((f = "odd?") = odd)) ELSE Fails(e)
       [] f = "inexact?" -> Says(e, BoolText(as[1][2][1])) [] f = "exact?" -> Says(e, BoolText(~as[1][2][1])) [] OTHER -> Says(e, "#t")
\* not whole
DoPart == \E l \in Pick(LitF) : ~IsInt(l[2][2]) /\ Says("(integer? " \o l[1] \o ")", "#f")
\* in text, and from text
DoText(i) == \E as \in Operands(1) : Len(as) = 1 /\ IF i # 0 /\ ~as[1][2][1] /\ ~IsInt(as[1][2][2]) THEN FALSE ELSE
  IF i = 0 THEN Says("(number->string " \o as[1][1] \o ")", "\"" \o Text(as[1][2]) \o "\"")
  ELSE Gives(i, "(string->number (number->string " \o as[1][1] \o "))", as[1][2])
DoWrite(i) == \E as \in Operands(1), f \in Pick({"write", "display"}) : Len(as) = 1 /\
  IF i = 0 THEN Says("(call-with-output-string (lambda (p) (" \o f \o " " \o as[1][1] \o " p)))", "\"" \o Text(as[1][2]) \o "\"")
  ELSE Gives(i, "(read (open-input-string (call-with-output-string (lambda (p) (" \o f \o " " \o as[1][1] \o " p)))))", as[1][2])
\* written in any way
DoSpell(i) == \E p \in Pick(Floats), h \in Pick(Spellings), how \in Pick({"", "read", "string"}) :
  LET s == Spell(p, h) IN Gives(i, CASE how = "" -> s [] how = "read" -> "(read (open-input-string \"" \o s \o "\"))" [] OTHER -> "(string->number \"" \o s \o "\")", <<TRUE, Rat(p[1], p[2])>>)
\* of two inexact, or two exact, numbers
DoSame == \E as \in Operands(2) : Len(as) = 2 /\ as[1][2][1] = as[2][2][1] /\
  LET same == BoolText(as[1][2][2] = as[2][2][2])
      a == as[1][1]
      b == as[2][1]
  IN Says("(list (eqv? " \o a \o " " \o b \o ") (equal? (list " \o a \o ") (list " \o b \o ")))", "(" \o same \o " " \o same \o ")")
Wrong == {"'a", "\"1.5\"", "#\\1", "'()", "(list 1.5)", "#f", "(vector 1.5)", "car"}
DoWrong == \E l \in Pick(LitF), w \in Pick(Wrong), f \in Pick({"+", "-", "*", "/", "<", ">", "<=", ">=", "=", "max", "min"}), k \in Pick({0, 1}) : ~Is0(l[2][2]) /\ Fails(Call(f, IF k = 0 THEN <<w, l[1]>> ELSE <<l[1], w>>))

Target == {"add", "mul", "sub", "div", "abs", "max", "sqrt", "text", "write", "spell"}
Step(op, i) ==
  CASE op = "add" -> DoAdd(i) [] op = "mul" -> DoMul(i) [] op = "sub" -> DoSub(i) [] op = "div" -> DoDiv(i) [] op = "abs" -> DoAbs(i) [] op = "max" -> DoMax(i) [] op = "sqrt" -> DoSqrt(i)
    [] op = "text" -> DoText(i) [] op = "write" -> DoWrite(i) [] op = "spell" -> DoSpell(i) [] op = "compare" -> DoCompare [] op = "pred" -> DoPred \/ DoPart [] op = "same" -> DoSame [] op = "wrong" -> DoWrong
    [] op = "lit" -> \E l \in Pick(Lit) : Gives(IF i = 0 THEN 1 ELSE i, l[1], l[2])

Init == reg = [i \in V |-> Zero1] /\ hist = [i \in V |-> <<"!!(define " \o RV(i) \o " 0)", "">>]
Next == (Sim \/ Len(hist) < MaxLen + NReg) /\ \E op \in (IF Sim THEN {RandomElement(Ops), RandomElement(Ops), "lit"} ELSE Ops), i \in Pick(IF Sim \/ NReg > 1 THEN 0..NReg ELSE {1}) : (Sim \/ op \in Target \/ i = 1) /\ Step(op, i)
View == reg
Bound == TRUE
\* what is held inexactly is what an inexact number can hold
Inv == \A i \in V : (reg[i][1] => Holdable(reg[i][2])) /\ GcdN(reg[i][2][2], reg[i][2][3]) = One
=============================================================================
