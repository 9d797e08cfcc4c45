------------------------------ MODULE Strings ------------------------------
(***************************************************************************)
(* Strings and characters (C25).  Variables x1..xn hold string objects,    *)
(* which are mutable sequences of character codes; y holds a symbol.       *)
(* Every operation on strings is followed by the codes of all of them.     *)
(***************************************************************************)
EXTENDS Path

CONSTANTS NVar, Codes, Ops, MaxStr, MaxLen, Radixes, Numbers, Sim

VARIABLES x,      \* variable -> string object
          obj,    \* sequence of the contents of the string objects
          y       \* the symbol's name
vars == <<x, obj, y, hist>>

V == 1..NVar
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
XV(i) == "x" \o Str(i)
S(i) == obj[x[i]]
Nums(s) == [k \in 1..Len(s) |-> Str(s[k])]
\* the expression of a fresh string, made by the prelude's s
Lit(s) == Call("s", Nums(s))
CodesText(s) == ListText(Nums(s))
AllText(o, xs) == ListText([i \in V |-> CodesText(o[xs[i]])])
AllVars == Words([i \in V |-> XV(i)])
Ch(c) == "(integer->char " \o Str(c) \o ")"

\* the fresh string s goes to xi
Put(i, e, s) ==
  /\ Len(s) <= MaxStr
  /\ obj' = Append(obj, s)
  /\ x' = [x EXCEPT ![i] = Len(obj) + 1]
  /\ Do("(begin (set! " \o XV(i) \o " " \o e \o ") (all " \o AllVars \o "))", AllText(Append(obj, s), [x EXCEPT ![i] = Len(obj) + 1]))
  /\ UNCHANGED y
See(e, shown) == UNCHANGED <<x, obj, y>> /\ Do(e, shown)
\* an error that changes nothing: (bad thunk) is !error, and then everything is as before
Bad(e) == UNCHANGED <<x, obj, y>> /\ Do("(list (bad (lambda () " \o e \o ")) (all " \o AllVars \o "))", "(bad " \o AllText(obj, x) \o ")")
Is(b) == BoolText(b)

\* ---------------------------------------------------------------- characters
Upper == 65..90
Lower == 97..122
Digit == 48..57
Space == {9, 10, 11, 12, 13, 32}
Up(c) == IF c \in Lower THEN c - 32 ELSE c
Down(c) == IF c \in Upper THEN c + 32 ELSE c
Between == 91..96   \* where they are, in an order without case, is not claimed
DoChar == \E c \in Pick(Codes) : \E f \in Pick({"up", "down", "alpha", "num", "white", "upper?", "lower?", "int"}) :
  CASE f = "up" -> See("(char->integer (char-upcase " \o Ch(c) \o "))", Str(Up(c)))
    [] f = "down" -> See("(char->integer (char-downcase " \o Ch(c) \o "))", Str(Down(c)))
    [] f = "alpha" -> See(Call("char-alphabetic?", <<Ch(c)>>), Is(c \in Upper \cup Lower))
    [] f = "num" -> See(Call("char-numeric?", <<Ch(c)>>), Is(c \in Digit))
    [] f = "white" -> See(Call("char-whitespace?", <<Ch(c)>>), Is(c \in Space))
    [] f = "upper?" -> See(Call("char-upper-case?", <<Ch(c)>>), Is(c \in Upper))
    [] f = "lower?" -> See(Call("char-lower-case?", <<Ch(c)>>), Is(c \in Lower))
    [] OTHER -> See("(char->integer " \o Ch(c) \o ")", Str(c))
DoCharRange == \E n \in Pick({-1, 0, 255, 256, 1000}) : IF n \in 0..255 THEN See("(char->integer " \o Ch(n) \o ")", Str(n)) ELSE Bad(Ch(n))
Rel == {<<"=?", "eq">>, <<"<?", "lt">>, <<">?", "gt">>, <<"<=?", "le">>, <<">=?", "ge">>}
\* cmp: -1, 0 or 1
Holds(r, cmp) == CASE r = "eq" -> cmp = 0 [] r = "lt" -> cmp < 0 [] r = "gt" -> cmp > 0 [] r = "le" -> cmp <= 0 [] OTHER -> cmp >= 0
Cmp1(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Unclear(cs) == \E k \in 1..Len(cs) : cs[k] \in Between
DoCharCmp == \E c \in Pick(Codes), d \in Pick(Codes), r \in Pick(Rel), ci \in Pick(BOOLEAN) :
  See(Call((IF ci THEN "char-ci" ELSE "char") \o r[1], <<Ch(c), Ch(d)>>),
      IF ci /\ r[2] # "eq" /\ Unclear(<<c, d>>) THEN "?" ELSE Is(Holds(r[2], IF ci THEN Cmp1(Up(c), Up(d)) ELSE Cmp1(c, d))))
RECURSIVE CmpS(_, _, _)
CmpS(a, b, k) == IF k > Len(a) \/ k > Len(b) THEN Cmp1(Len(a), Len(b))
                 ELSE IF a[k] # b[k] THEN Cmp1(a[k], b[k]) ELSE CmpS(a, b, k + 1)
UpS(s) == [k \in 1..Len(s) |-> Up(s[k])]
DoStrCmp == \E i \in Pick(V), j \in Pick(V), r \in Pick(Rel), ci \in Pick(BOOLEAN) :
  See(Call((IF ci THEN "string-ci" ELSE "string") \o r[1], <<XV(i), XV(j)>>),
      IF ci /\ r[2] # "eq" /\ Unclear(S(i) \o S(j)) THEN "?" ELSE Is(Holds(r[2], IF ci THEN CmpS(UpS(S(i)), UpS(S(j)), 1) ELSE CmpS(S(i), S(j), 1))))
DoEqual == \E i \in Pick(V), j \in Pick(V) : See(Call("equal?", <<XV(i), XV(j)>>), Is(S(i) = S(j)))

\* ------------------------------------------------------------------- strings
SomeSeq == IF Sim THEN {[k \in 1..RandomElement(0..4) |-> RandomElement(Codes)]} ELSE UNION {[1..n -> Codes] : n \in 0..2}
DoString(i) == \E s \in SomeSeq : Put(i, Call("string", [k \in 1..Len(s) |-> Ch(s[k])]), s)
DoLiteral(i) == \E s \in SomeSeq : Put(i, Lit(s), s)
DoMake(i) == \E m \in Pick({<<Str(k), k>> : k \in {-1, 0, 1, 2, 3, 20}} \cup {<<t, -1>> : t \in {"-4294967294", "-2147483648", "-9223372036854775808"}}), c \in Pick(Codes) :
  LET n == m[2]
      e == Call("make-string", <<m[1], Ch(c)>>) IN IF n < 0 THEN Bad(e) ELSE Put(i, e, [k \in 1..n |-> c])
DoMakeBare == \E n \in Pick({0, 1, 5}) : See("(string-length (make-string " \o Str(n) \o "))", Str(n))
DoAlias(i) == \E j \in Pick(V) : /\ x' = [x EXCEPT ![i] = x[j]] /\ UNCHANGED <<obj, y>>
                                 /\ Do("(begin (set! " \o XV(i) \o " " \o XV(j) \o ") (all " \o AllVars \o "))", AllText(obj, x'))
DoLength == \E i \in Pick(V) : See(Call("string-length", <<XV(i)>>), Str(Len(S(i))))
\* <<text, number>>: an index, one too far on either side, or far away in every width
Far == {"4294967296", "4294967297", "4294967298", "-4294967295", "2147483648", "-2147483648", "9223372036854775807", "-9223372036854775808", "65536", "256"}
Index(i) == {<<Str(k), k>> : k \in (-1)..(Len(S(i)) + 1)} \cup {<<t, -1>> : t \in IF Sim THEN {RandomElement(Far)} ELSE {"4294967296"}}
DoRef == \E i \in Pick(V) : \E c \in Pick(Index(i)) :
  LET k == c[2] IN
  IF k >= 0 /\ k < Len(S(i)) THEN See("(char->integer (string-ref " \o XV(i) \o " " \o c[1] \o "))", Str(S(i)[k + 1]))
  ELSE Bad(Call("string-ref", <<XV(i), c[1]>>))
DoSet == \E i \in Pick(V) : \E n \in Pick(Index(i)), c \in Pick(Codes) :
  LET k == n[2]
      e == Call("string-set!", <<XV(i), n[1], Ch(c)>>)
  IN IF k >= 0 /\ k < Len(S(i))
     THEN /\ obj' = [obj EXCEPT ![x[i]][k + 1] = c] /\ UNCHANGED <<x, y>>
          /\ Do("(begin " \o e \o " (all " \o AllVars \o "))", AllText(obj', x))
     ELSE Bad(e)
DoSubstring(i) == \E j \in Pick(V) : \E a2 \in Pick(Index(j)), b2 \in Pick(Index(j)) :
  LET a == a2[2]
      b == b2[2]
      e == Call("substring", <<XV(j), a2[1], b2[1]>>)
  IN IF 0 <= a /\ a <= b /\ b <= Len(S(j)) THEN Put(i, e, SubSeq(S(j), a + 1, b)) ELSE Bad(e)
RECURSIVE Concat(_, _)
Concat(is, k) == IF k > Len(is) THEN <<>> ELSE S(is[k]) \o Concat(is, k + 1)
DoAppend(i) == \E is \in (IF Sim THEN {[k \in 1..RandomElement(0..3) |-> RandomElement(V)]} ELSE UNION {[1..n -> V] : n \in 0..2}) :
  Put(i, Call("string-append", [k \in 1..Len(is) |-> XV(is[k])]), Concat(is, 1))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
DoList(i) == \E j \in Pick(V), rev \in Pick(BOOLEAN) :
  IF rev THEN Put(i, "(list->string (reverse (string->list " \o XV(j) \o ")))", Rev(S(j)))
  ELSE Put(i, "(list->string (string->list " \o XV(j) \o "))", S(j))
DoToList == \E j \in Pick(V) : See("(map char->integer (string->list " \o XV(j) \o "))", CodesText(S(j)))
DoSym == \E j \in Pick(V) : y' = S(j) /\ UNCHANGED <<x, obj>> /\ Do("(begin (set! y (string->symbol " \o XV(j) \o ")) (symbol? y))", "#t")
DoName(i) == Put(i, "(symbol->string y)", y)
DoSameSym == \E j \in Pick(V) : See("(eq? y (string->symbol " \o XV(j) \o "))", Is(y = S(j)))

\* ------------------------------------------------------------------- numbers
DigitOf(c) == CASE c \in Digit -> c - 48 [] c \in Lower -> c - 87 [] c \in Upper -> c - 55 [] OTHER -> 99
RECURSIVE Value(_, _, _)
Value(s, k, r) == IF k = 0 THEN 0 ELSE r * Value(s, k - 1, r) + DigitOf(s[k])
\* the text of the number s names in radix r, "?" where it is not claimed
Parse(s, r) ==
  LET signed == Len(s) > 0 /\ s[1] \in {43, 45}
      ds == IF signed THEN Tail(s) ELSE s
      has(c) == \E k \in 1..Len(s) : s[k] = c
      strange == \E k \in 1..Len(s) : s[k] \notin Digit \cup Upper \cup Lower \cup {43, 45, 46, 47, 35}
  IN IF strange THEN "#f"
     ELSE IF has(47) \/ has(35) \/ (has(46) \/ (r = 10 /\ (has(101) \/ has(69)))) THEN "?"
     ELSE IF Len(ds) = 0 \/ \E k \in 1..Len(ds) : DigitOf(ds[k]) >= r THEN "#f"
     ELSE IF Len(ds) > 5 THEN "?"
     ELSE LET v == Value(ds, Len(ds), r) IN IF signed /\ s[1] = 45 THEN Str(-v) ELSE Str(v)
DoToNumber == \E j \in Pick(V), r \in Pick(Radixes) :
  See(Call("string->number", IF r = 10 /\ Len(S(j)) % 2 = 0 THEN <<XV(j)>> ELSE <<XV(j), Str(r)>>), Parse(S(j), r))
RECURSIVE DigitsOf(_, _)
DigitsOf(n, r) == IF n < r THEN <<IF n < 10 THEN 48 + n ELSE 87 + n>> ELSE DigitsOf(n \div r, r) \o <<LET d == n % r IN IF d < 10 THEN 48 + d ELSE 87 + d>>
DoFromNumber(i) == \E n \in Pick(Numbers), r \in Pick(Radixes) :
  Put(i, Call("number->string", IF r = 10 /\ n % 2 = 0 THEN <<Str(n)>> ELSE <<Str(n), Str(r)>>),
      IF n < 0 THEN <<45>> \o DigitsOf(-n, r) ELSE DigitsOf(n, r))

\* numbers of any size: those of 64 bits convert both ways, and a string of digits past them names no number
BN == INSTANCE Bignum
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN <<1>> ELSE BN!MulD(Power(b, k - 1), b)
DigitText(d, cap) == IF d < 10 THEN ToString(d) ELSE (IF cap THEN <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
                                                      ELSE <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>)[d - 9]
RECURSIVE TextR(_, _, _)
TextR(a, r, cap) == IF a = <<>> THEN "" ELSE LET qr == BN!DivN(a, BN!OfNat(r)) IN TextR(qr[1], r, cap) \o DigitText(IF qr[2] = <<>> THEN 0 ELSE qr[2][1], cap)
Near(a, d) == IF d >= 0 THEN BN!Trim(BN!AddN(a, BN!OfNat(d))) ELSE IF BN!CmpN(a, BN!OfNat(-d)) < 0 THEN <<>> ELSE BN!SubN(a, BN!OfNat(-d))
Magnitudes(r) == IF Sim THEN {Near(CASE RandomElement(1..3) = 1 -> Power(2, RandomElement({62, 63, 64, 31, 32})) [] RandomElement(1..2) = 1 -> Power(r, RandomElement(0..14))
                                    [] OTHER -> BN!Trim([k \in 1..RandomElement(1..5) |-> RandomElement(0..9999)]), RandomElement(-2..2))}
                 ELSE {Near(Power(2, k), d) : k \in {15, 31, 32, 62, 63, 64}, d \in -1..1} \cup {Near(Power(r, k), d) : k \in {0, 1, 5, 12}, d \in -1..1}
Fits(neg, a) == BN!CmpN(a, IF neg THEN Power(2, 63) ELSE Near(Power(2, 63), -1)) <= 0
DoWide == \E r \in Pick(Radixes) : \E a \in Magnitudes(r), neg \in Pick(BOOLEAN), cap \in Pick(BOOLEAN), to \in Pick(BOOLEAN), lead \in Pick({"", "0", "00000000000000000000000000"}) :
  LET sign == IF neg /\ a # <<>> THEN "-" ELSE ""
      digits == IF a = <<>> THEN "0" ELSE TextR(a, r, cap)
      dec == sign \o BN!TextN(a)
  IN IF to \/ ~Fits(neg, a)
     THEN See("(catch #t (lambda () (string->number \"" \o sign \o lead \o digits \o "\" " \o Str(r) \o ")) (lambda k #f))", IF Fits(neg, a) THEN dec ELSE "#f")
     ELSE See("(string=? (number->string " \o dec \o " " \o Str(r) \o ") \"" \o sign \o (IF a = <<>> THEN "0" ELSE TextR(a, r, FALSE)) \o "\")", "#t")

\* a radix is 2 to 36, in every width
DoRadix == \E r \in Pick({"0", "1", "-1", "37", "-10", "4294967298", "4294967306", "-4294967286", "9223372036854775807"}) : \E n \in Pick(Numbers), to \in Pick(BOOLEAN) :
  Bad(IF to THEN Call("string->number", <<"\"1\"", r>>) ELSE Call("number->string", <<Str(n), r>>))

\* --------------------------------------------------------- operands of other types
Wrong == {"1", "#\\a", "'a", "'()", "(list #\\a)", "#t", "(vector #\\a)", "car"}
DoWrong == \E i \in Pick(V), w \in Pick(Wrong) :
  LET X == XV(i)
      c == Ch(97)
      str == {Call("string-length", <<w>>), Call("string-ref", <<w, "0">>), Call("string-set!", <<w, "0", c>>), Call("substring", <<w, "0", "0">>), Call("string-append", <<X, w>>), Call("string-append", <<w, X>>),
              Call("string->list", <<w>>), Call("string->symbol", <<w>>), Call("string->number", <<w>>), Call("string=?", <<X, w>>), Call("string<?", <<w, X>>), Call("string>?", <<X, w>>), Call("string<=?", <<w, X>>),
              Call("string>=?", <<X, w>>), Call("string-ci=?", <<w, X>>), Call("string-ci<?", <<X, w>>), Call("string-ci>?", <<w, X>>), Call("string-ci<=?", <<X, w>>), Call("string-ci>=?", <<w, X>>)}
      chr == {Call("string", <<c, w>>), Call("make-string", <<"1", w>>), Call("string-set!", <<X, "0", w>>), Call("char->integer", <<w>>), Call("char-upcase", <<w>>), Call("char-downcase", <<w>>), Call("char-alphabetic?", <<w>>),
              Call("char-numeric?", <<w>>), Call("char-whitespace?", <<w>>), Call("char-upper-case?", <<w>>), Call("char-lower-case?", <<w>>), Call("char=?", <<c, w>>), Call("char<?", <<w, c>>), Call("char>?", <<c, w>>),
              Call("char<=?", <<w, c>>), Call("char>=?", <<c, w>>), Call("char-ci=?", <<w, c>>), Call("char-ci<?", <<c, w>>), Call("char-ci>?", <<w, c>>), Call("char-ci<=?", <<c, w>>), Call("char-ci>=?", <<w, c>>), Call("list->string", <<"(list " \o c \o " " \o w \o ")">>)}
      num == {Call("string-ref", <<X, w>>), Call("string-set!", <<X, w, c>>), Call("substring", <<X, w, "0">>), Call("substring", <<X, "0", w>>), Call("make-string", <<w, c>>), Call("integer->char", <<w>>), Call("number->string", <<w>>),
              Call("string->number", <<X, w>>)}
      sym == {Call("symbol->string", <<w>>)}
      all == (IF w # "'a" THEN sym ELSE {}) \cup (IF w # "1" THEN num ELSE {}) \cup (IF w # "#\\a" THEN chr ELSE {}) \cup str
  IN \E e \in Pick(all) : Bad(e)

NoTarget == {"char", "range", "charcmp", "strcmp", "equal", "length", "ref", "set", "tolist", "sym", "samesym", "tonumber", "wide", "radix", "wrong", "bare"}
Step(op, i) ==
  CASE op = "char" -> DoChar [] op = "range" -> DoCharRange [] op = "charcmp" -> DoCharCmp [] op = "strcmp" -> DoStrCmp [] op = "equal" -> DoEqual
    [] op = "string" -> DoString(i) [] op = "literal" -> DoLiteral(i) [] op = "make" -> DoMake(i) [] op = "bare" -> DoMakeBare [] op = "alias" -> DoAlias(i)
    [] op = "length" -> DoLength [] op = "ref" -> DoRef [] op = "set" -> DoSet [] op = "substring" -> DoSubstring(i) [] op = "append" -> DoAppend(i)
    [] op = "list" -> DoList(i) [] op = "tolist" -> DoToList [] op = "sym" -> DoSym [] op = "name" -> DoName(i) [] op = "samesym" -> DoSameSym
    [] op = "tonumber" -> DoToNumber [] op = "fromnumber" -> DoFromNumber(i) [] op = "wide" -> DoWide [] op = "radix" -> DoRadix [] op = "wrong" -> DoWrong
    [] OTHER -> See("(all " \o AllVars \o ")", AllText(obj, x))

Init == x = [i \in V |-> i] /\ obj = [i \in V |-> <<>>] /\ y = <<113>>
        /\ hist = [i \in V |-> <<"!!(define " \o XV(i) \o " (string))", "">>] \o <<<<"!!(define y 'q)", "">>>>
Next == (Sim \/ Len(hist) < MaxLen + NVar + 1) /\ \E op \in (IF Sim THEN {RandomElement(Ops), "look"} ELSE Ops), i \in Pick(V) : (Sim \/ op \notin NoTarget \/ i = 1) /\ Step(op, i)
View == <<[i \in V |-> S(i)], [i \in V |-> {j \in V : x[j] = x[i]}], y>>
Bound == TRUE
Inv == \A i \in V : x[i] \in 1..Len(obj) /\ Len(S(i)) <= MaxStr
=============================================================================
