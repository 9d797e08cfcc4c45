------------------------------- MODULE Expand -------------------------------
(***************************************************************************)
(* Macros at the top level (C15): what they are defined as, what           *)
(* macroexpand-1 and macroexpand show of a form, and what evaluating it    *)
(* gives.  A form is an atom [a] or a call [h, as].  A macro is a template *)
(* with a head; m1's can only make calls of m2, m3, ..., so every          *)
(* expansion ends.                                                         *)
(***************************************************************************)
EXTENDS Path

CONSTANTS NMac, Kinds, Ops, MaxLen, Sim

VARIABLES m  \* macro -> [k, h], or [k |-> "none"] before it is defined
vars == <<m, hist>>

M == 1..NMac
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
MN(i) == "m" \o Str(i)
Atom(t) == [a |-> t]
F(h, as) == [h |-> h, as |-> as]
IsAtom(f) == "a" \in DOMAIN f
RECURSIVE Text(_)
Text(f) == IF IsAtom(f) THEN f.a ELSE Call(f.h, [i \in DOMAIN f.as |-> Text(f.as[i])])

\* -------------------------------------------------------------------- macros
Params(k) == CASE k = "swap" -> <<"a", "b">> [] k \in {"rest", "drop"} -> <<"a", ". r">> [] k = "all" -> <<". r">> [] OTHER -> <<"a">>
Body(k, h) == CASE k = "double" -> "(list '" \o h \o " a a)" [] k = "swap" -> "(list '" \o h \o " b a)" [] k = "rest" -> "(cons '" \o h \o " (cons a r))" [] k = "drop" -> "(cons '" \o h \o " r)"
  [] k = "all" -> "(cons '" \o h \o " r)" [] k = "quote" -> "(list '" \o h \o " (list 'quote a))" [] k = "quasi" -> "`(" \o h \o " ,a 1 ,@(list a 2))" [] k = "lambda" -> "(list '" \o h \o " a)"
  [] k = "const" -> "(list '" \o h \o " 7)" [] k = "wrap" -> "(list '" \o h \o " (list 'list a))" [] k = "count" -> "(begin (set! ran (+ ran 1)) (list '" \o h \o " a))" [] OTHER -> "a"
Definition(i, k, h) ==
  IF k = "lambda" THEN "(define-macro " \o MN(i) \o " (lambda (a) " \o Body(k, h) \o "))"
  ELSE IF k = "all" THEN "(define-macro (" \o MN(i) \o " . r) " \o Body(k, h) \o ")"
  ELSE "(define-macro (" \o MN(i) \o " " \o Words(Params(k)) \o ") " \o Body(k, h) \o ")"
Takes(k, n) == CASE k = "swap" -> n = 2 [] k \in {"rest", "drop"} -> n >= 1 [] k = "all" -> TRUE [] OTHER -> n = 1
Expansion(k, h, as) == CASE k = "double" -> F(h, <<as[1], as[1]>>) [] k = "swap" -> F(h, <<as[2], as[1]>>) [] k = "rest" -> F(h, as) [] k = "drop" -> F(h, Tail(as)) [] k = "all" -> F(h, as)
  [] k = "quote" -> F(h, <<F("quote", <<as[1]>>)>>) [] k = "quasi" -> F(h, <<as[1], Atom("1"), as[1], Atom("2")>>) [] k \in {"lambda", "count"} -> F(h, <<as[1]>>)
  [] k = "const" -> F(h, <<Atom("7")>>) [] k = "wrap" -> F(h, <<F("list", <<as[1]>>)>>) [] OTHER -> as[1]
\* the index of a head, 0 if it is no macro
Macro(h) == IF \E i \in M : MN(i) = h /\ m[i].k # "none" THEN CHOOSE i \in M : MN(i) = h ELSE 0
Bad == [bad |-> TRUE]
IsBad(f) == f = Bad
\* [f, n]: the form after one step, and how many times a transformer counted
One(f) == IF IsAtom(f) \/ Macro(f.h) = 0 THEN [f |-> f, n |-> 0]
  ELSE LET d == m[Macro(f.h)] IN IF Takes(d.k, Len(f.as)) THEN [f |-> Expansion(d.k, d.h, f.as), n |-> IF d.k = "count" THEN 1 ELSE 0] ELSE [f |-> Bad, n |-> 0]
RECURSIVE Full(_, _)
Full(f, n) == IF IsBad(f) \/ IsAtom(f) \/ (~IsAtom(f) /\ Macro(f.h) = 0) THEN [f |-> f, n |-> n] ELSE LET o == One(f) IN Full(o.f, n + o.n)
\* the value of a form whose calls are of list, quote and macros: its text, and the count
RECURSIVE Value(_), Values(_, _)
Value(f) == IF IsBad(f) THEN [t |-> Err, n |-> 0] ELSE IF IsAtom(f) THEN [t |-> f.a, n |-> 0]
  ELSE IF Macro(f.h) # 0 THEN LET o == One(f) v == Value(o.f) IN [t |-> v.t, n |-> o.n + v.n]
  ELSE IF f.h = "quote" THEN (IF Len(f.as) = 1 THEN [t |-> Text(f.as[1]), n |-> 0] ELSE [t |-> "?", n |-> 0])
  ELSE IF f.h # "list" THEN [t |-> Err, n |-> 0]
  ELSE LET vs == Values(f.as, 1) IN IF vs.bad # "" THEN [t |-> vs.bad, n |-> vs.n] ELSE [t |-> ListText(vs.ts), n |-> vs.n]
Values(as, i) == IF i > Len(as) THEN [ts |-> <<>>, n |-> 0, bad |-> ""]
  ELSE LET v == Value(as[i]) IN
    IF v.t \in {Err, "?"} THEN [ts |-> <<>>, n |-> v.n, bad |-> v.t]
    ELSE LET r == Values(as, i + 1) IN [ts |-> <<v.t>> \o r.ts, n |-> v.n + r.n, bad |-> r.bad]

\* --------------------------------------------------------------------- forms
Heads == {MN(i) : i \in M} \cup {"list"}
Leaf(d) == RandomElement({Atom("1"), Atom("2"), Atom("\"s\""), Atom("#t")})
RECURSIVE Rand(_)
Rand(d) == IF d = 0 \/ RandomElement(1..3) = 1 THEN Leaf(d) ELSE F(RandomElement(Heads), [i \in 1..RandomElement({1, 1, 1, 2, 2, 3, 0}) |-> Rand(d - 1)])
Small == LET A == {Atom("1"), Atom("2")} B == A \cup {F(h, <<a>>) : h \in Heads, a \in A} IN {F(h, as) : h \in Heads, as \in UNION {[1..n -> B] : n \in 0..2}} \cup {Atom("1")}
Form == IF Sim THEN {F(RandomElement(Heads), [i \in 1..RandomElement({1, 1, 1, 2, 2, 3, 0}) |-> Rand(2)])} ELSE Small
Same == UNCHANGED m
With(e) == "(begin (set! ran 0) (list " \o e \o " ran))"
Shown(t, n) == IF t \in {Err, "?"} THEN t ELSE "(" \o t \o " " \o Str(n) \o ")"

DoDefine(i) == \E k \in Pick(Kinds), h \in Pick({MN(j) : j \in {q \in M : q > i}} \cup {"list"}) :
  m' = [m EXCEPT ![i] = [k |-> k, h |-> h]] /\ Do("!!" \o Definition(i, k, h), "")
DoOne == \E f \in Form : LET o == One(f) IN Same /\ Do(With("(macroexpand-1 '" \o Text(f) \o ")"), IF IsBad(o.f) THEN Err ELSE Shown(Text(o.f), o.n))
DoFull == \E f \in Form : LET o == Full(f, 0) IN Same /\ Do(With("(macroexpand '" \o Text(f) \o ")"), IF IsBad(o.f) THEN Err ELSE Shown(Text(o.f), o.n))
DoEval == \E f \in Form, how \in Pick({"plain", "eval", "call"}) : LET v == Value(f) IN Same /\
  Do(With(CASE how = "plain" -> Text(f) [] how = "eval" -> "(eval '" \o Text(f) \o ")" [] OTHER -> "((lambda () " \o Text(f) \o "))"), Shown(v.t, v.n))
\* what macroexpand shows evaluates to the same
DoBoth == \E f \in Form : LET v == Value(f) IN Same /\ Do(With("(eval (macroexpand '" \o Text(f) \o "))"), Shown(v.t, v.n))

Init == m = [i \in M |-> [k |-> "none"]] /\ hist = <<<<"!!(define ran 0)", "">>>>
Next == (Sim \/ Len(hist) < MaxLen + 1) /\ \E op \in Pick(Ops), i \in Pick(M) :
  CASE op = "define" -> DoDefine(i) [] op = "one" -> (Sim \/ i = 1) /\ DoOne [] op = "full" -> (Sim \/ i = 1) /\ DoFull [] op = "eval" -> (Sim \/ i = 1) /\ DoEval [] OTHER -> (Sim \/ i = 1) /\ DoBoth
View == m
Bound == TRUE
\* a macro's head is list or a later macro
Inv == \A i \in M : m[i].k = "none" \/ m[i].h = "list" \/ \E j \in M : j > i /\ m[i].h = MN(j)
\* expanding fully gives no macro call, and expanding again changes nothing; the value is kept
Fixed == \A f \in {F(h, <<Atom("1")>>) : h \in Heads} : LET o == Full(f, 0).f IN IsBad(o) \/ (One(o).f = o /\ Value(o).t = Value(f).t)
=============================================================================
