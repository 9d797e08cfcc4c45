------------------------------- MODULE Bignum -------------------------------
(***************************************************************************)
(* Integers of any size for TLC, whose own are 32 bits: a natural number   *)
(* is the sequence of its digits in base 10000, least significant first,   *)
(* without zeros at the end; an integer is <<negative, natural>>; a        *)
(* rational is <<negative, numerator, denominator>> in lowest terms.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

B == 10000
One == <<1>>
RECURSIVE Trim(_)
Trim(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
D(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpAt(a, b, k - 1)
CmpN(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
RECURSIVE AddC(_, _, _, _)
AddC(a, b, k, c) ==
  IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == D(a, k) + D(b, k) + c IN <<s % B>> \o AddC(a, b, k + 1, s \div B)
AddN(a, b) == AddC(a, b, 1, 0)
RECURSIVE SubC(_, _, _, _)
SubC(a, b, k, c) == IF k > Len(a) THEN <<>> ELSE LET s == a[k] - D(b, k) - c IN <<s % B>> \o SubC(a, b, k + 1, IF s < 0 THEN 1 ELSE 0)
\* a >= b
SubN(a, b) == Trim(SubC(a, b, 1, 0))
RECURSIVE MulC(_, _, _, _)
MulC(a, d, k, c) == IF k > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>) ELSE LET s == a[k] * d + c IN <<s % B>> \o MulC(a, d, k + 1, s \div B)
MulD(a, d) == IF d = 0 THEN <<>> ELSE MulC(a, d, 1, 0)
RECURSIVE MulK(_, _, _)
MulK(a, b, k) == IF k > Len(b) THEN <<>> ELSE LET r == MulK(a, b, k + 1) IN AddN(MulD(a, b[k]), IF r = <<>> THEN <<>> ELSE <<0>> \o r)
MulN(a, b) == IF a = <<>> THEN <<>> ELSE MulK(a, b, 1)
\* the largest d in lo..hi with d * b <= r
RECURSIVE Digit(_, _, _, _)
Digit(r, b, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF CmpN(MulD(b, m), r) <= 0 THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m - 1)
\* two digits fit TLC's integers
Small(a) == Len(a) <= 2
Native(a) == D(a, 1) + B * D(a, 2)
RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfNat(n \div B)
\* the range of the next digit of r / b, from their first digits
NextDigit(r, b) == LET k == Len(b)
                  top == D(r, k + 1) * B + D(r, k)
                  hi == top \div b[k]
              IN Digit(r, b, top \div (b[k] + 1), IF hi < B THEN hi ELSE B - 1)
RECURSIVE DivAt(_, _, _, _, _)
DivAt(a, b, k, q, r) ==
  IF k = 0 THEN <<Trim(q), r>>
  ELSE LET r2 == Trim(<<a[k]>> \o r)
           d == IF CmpN(r2, b) < 0 THEN 0 ELSE NextDigit(r2, b)
       IN DivAt(a, b, k - 1, <<d>> \o q, IF d = 0 THEN r2 ELSE SubN(r2, MulD(b, d)))
\* <<quotient, remainder>>, b # 0
DivN(a, b) == IF Small(a) /\ Small(b) THEN <<OfNat(Native(a) \div Native(b)), OfNat(Native(a) % Native(b))>> ELSE DivAt(a, b, Len(a), <<>>, <<>>)
RECURSIVE GcdNative(_, _)
GcdNative(a, b) == IF b = 0 THEN a ELSE GcdNative(b, a % b)
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = <<>> THEN a ELSE IF b = One THEN One ELSE IF Small(a) /\ Small(b) THEN OfNat(GcdNative(Native(a), Native(b))) ELSE GcdN(b, DivN(a, b)[2])
Pad(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n) ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE TextAt(_, _)
TextAt(a, k) == IF k = 0 THEN "" ELSE (IF k = Len(a) THEN ToString(a[k]) ELSE Pad(a[k])) \o TextAt(a, k - 1)
TextN(a) == IF a = <<>> THEN "0" ELSE TextAt(a, Len(a))

\* ------------------------------------------------------------------ integers
Sgn(neg, a) == <<neg /\ a # <<>>, a>>
OfInt(n) == IF n < 0 THEN Sgn(TRUE, OfNat(-n)) ELSE Sgn(FALSE, OfNat(n))
NegI(x) == Sgn(~x[1], x[2])
AddI(x, y) == IF x[1] = y[1] THEN Sgn(x[1], AddN(x[2], y[2]))
              ELSE IF CmpN(x[2], y[2]) >= 0 THEN Sgn(x[1], SubN(x[2], y[2])) ELSE Sgn(y[1], SubN(y[2], x[2]))
MulI(x, y) == Sgn(x[1] # y[1], MulN(x[2], y[2]))
CmpI(x, y) == IF x[1] # y[1] THEN (IF x[1] THEN -1 ELSE 1) ELSE IF x[1] THEN CmpN(y[2], x[2]) ELSE CmpN(x[2], y[2])
\* towards zero, and with the sign of the dividend
QuoI(x, y) == Sgn(x[1] # y[1], DivN(x[2], y[2])[1])
RemI(x, y) == Sgn(x[1], DivN(x[2], y[2])[2])
ModI(x, y) == LET r == RemI(x, y) IN IF r[2] # <<>> /\ r[1] # y[1] THEN AddI(r, y) ELSE r
RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN OfInt(1) ELSE IF n % 2 = 1 THEN MulI(x, PowI(x, n - 1)) ELSE LET h == PowI(x, n \div 2) IN MulI(h, h)
Max63 == <<5807, 5477, 368, 3372, 922>>
Min63 == <<5808, 5477, 368, 3372, 922>>
Fits(x) == CmpN(x[2], IF x[1] THEN Min63 ELSE Max63) <= 0
TextI(x) == (IF x[1] THEN "-" ELSE "") \o TextN(x[2])

\* ----------------------------------------------------------------- rationals
\* x / y, y # 0
Rat(x, y) == LET g == GcdN(x[2], y[2])
                 n == DivN(x[2], g)[1]
                 d == DivN(y[2], g)[1]
             IN <<(x[1] # y[1]) /\ n # <<>>, n, d>>
Num(r) == <<r[1], r[2]>>
Den(r) == <<FALSE, r[3]>>
RInt(x) == <<x[1], x[2], One>>
IsInt(r) == r[3] = One
TextR(r) == TextI(Num(r)) \o (IF IsInt(r) THEN "" ELSE "/" \o TextN(r[3]))
=============================================================================
