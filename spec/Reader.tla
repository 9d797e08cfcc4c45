------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The reader (C18) as a push-down automaton.  A state is a text read so   *)
(* far: the stack of constructs that are still open, each with the data it *)
(* has got, and the text itself.  A step appends one token, in one of its  *)
(* spellings, with white space and comments where they may or must stand,  *)
(* and says what reading the whole text must give.                         *)
(***************************************************************************)
EXTENDS Path

CONSTANTS Kinds, \* a sequence
          Atoms, \* {<<as shown, as spelled, the spelling inside a string literal, class>>}; class "s": delimits itself, "w": at its end only
          Blanks, \* {<<spelled, inside a string literal>>}, white space and comments
          Bads, \* {<<spelled, inside a string literal>>}, malformed data
          MaxTok, MaxLen, Sim

VARIABLE st
vars == <<st, hist>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
None == [t |-> "", l |-> FALSE, in |-> ""]
Frame(k) == [k |-> k, items |-> <<>>, dot |-> 0, tail |-> None]
Empty == [plain |-> "", esc |-> "", stack |-> <<Frame("top")>>, glue |-> FALSE, n |-> 0]

\* data: the text shown; of a list also what stands between its parentheses
Atom(s) == [t |-> s, l |-> FALSE, in |-> ""]
List(in) == [t |-> "(" \o in \o ")", l |-> TRUE, in |-> in]
Prefixes == {"'", "`", ",", ",@"}
NameOf(k) == CASE k = "'" -> "quote" [] k = "`" -> "quasiquote" [] k = "," -> "unquote" [] OTHER -> "unquote-splicing"
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Texts(items) == Words([i \in DOMAIN items |-> items[i].t])
Closed(f) == IF f.k = "#(" THEN Atom("#(" \o Texts(f.items) \o ")")
             ELSE IF f.dot = 2 THEN List(Texts(f.items) \o (IF ~f.tail.l THEN " . " \o f.tail.t ELSE IF f.tail.in = "" THEN "" ELSE " " \o f.tail.in))
             ELSE List(Texts(f.items))
RECURSIVE Add(_, _)
Add(s, d) == LET f == Top(s)
             IN IF f.k \in Prefixes THEN Add(Pop(s), List(NameOf(f.k) \o " " \o d.t))
                ELSE Append(Pop(s), IF f.dot = 1 THEN [f EXCEPT !.dot = 2, !.tail = d] ELSE [f EXCEPT !.items = Append(@, d)])
\* may a datum follow?
RECURSIVE Open(_)
Open(s) == IF Top(s).k \in Prefixes THEN Open(Pop(s)) ELSE Top(s).dot # 2
Complete(s) == Len(s) = 1

ReadOf(x) == "(" \o Texts(x.stack[1].items) \o ")"
\* what reading the text gives: from a string port, from a file port, as part of a program file; and what reading gives of what write made of that
Step(x) == /\ st' = x
           /\ Do("(rd \"" \o x.esc \o "\")", "(" \o ReadOf(x) \o " " \o ReadOf(x) \o " " \o (IF Complete(x.stack) THEN ReadOf(x) ELSE "bad") \o " " \o ReadOf(x) \o " " \o ReadOf(x) \o ")")
\* the text as a constant of the program itself
Constant(x) == /\ st' = Empty
               /\ Do("'(" \o x.plain \o "\n)", ReadOf(x))
RECURSIVE Closers(_)
Closers(s) == IF Len(s) = 1 THEN "" ELSE IF Top(s).k \in Prefixes THEN Closers(Pop(s)) ELSE ")" \o Closers(Pop(s))
\* something malformed, and the rest closed: the data before it, then an error
Malformed(x, plain, esc) == /\ st' = Empty
                            /\ Do("(rd-bad \"" \o x.esc \o esc \o Closers(x.stack) \o "\")", "(" \o ReadOf(x) \o " " \o ReadOf(x) \o " bad)")

\* the text with blanks b (a sequence) before something that needs a delimiter before it (d)
Sep(x, b) == [x EXCEPT !.plain = @ \o Join([i \in DOMAIN b |-> b[i][1]], "", 1), !.esc = @ \o Join([i \in DOMAIN b |-> b[i][2]], "", 1), !.glue = @ /\ b = <<>>]
Space == <<" ", " ">>
Separated(x, d) ==
  IF Sim THEN LET r == RandomElement(1..10)
              IN {Sep(x, IF r <= 6 THEN (IF d /\ x.glue THEN <<Space>> ELSE <<>>) ELSE IF r <= 8 THEN <<RandomElement(Blanks)>> ELSE [i \in 1..RandomElement(1..3) |-> RandomElement(Blanks)])}
  ELSE {Sep(x, b) : b \in {<<c>> : c \in Blanks} \cup (IF d /\ x.glue THEN {} ELSE {<<>>})}
Put(x, plain, esc, stack, glue) == [plain |-> x.plain \o plain, esc |-> x.esc \o esc, stack |-> stack, glue |-> glue, n |-> x.n + 1]

DoAtom(y) == \E a \in Pick(Atoms) : \E x \in Separated(y, a[4] # "s") : Open(x.stack) /\ Step(Put(x, a[2], a[3], Add(x.stack, Atom(a[1])), a[4] = "a"))
DoOpen(y) == \E k \in Pick({"(", "#("}) : \E x \in Separated(y, k = "#(") : Open(x.stack) /\ Step(Put(x, k, k, Append(x.stack, Frame(k)), FALSE))
DoClose(y) == \E x \in Separated(y, FALSE) : LET f == Top(x.stack) IN f.k \in {"(", "#("} /\ f.dot # 1 /\ Step(Put(x, ")", ")", Add(Pop(x.stack), Closed(f)), FALSE))
DoPrefix(y) == \E k \in Pick(Prefixes) : \E x \in Separated(y, FALSE) : Open(x.stack) /\ Step(Put(x, k, k, Append(x.stack, Frame(k)), FALSE))
DoDot(y) == \E x \in Separated(y, TRUE) : LET f == Top(x.stack)
            IN f.k = "(" /\ f.dot = 0 /\ f.items # <<>> /\ \E b \in Pick(Blanks) : Step(Put(x, "." \o b[1], "." \o b[2], Append(Pop(x.stack), [f EXCEPT !.dot = 1]), FALSE))
DoBad(y) == \E x \in Separated(y, TRUE) : LET f == Top(x.stack)
            IN \/ Open(x.stack) /\ \E b \in Pick(Bads) : Malformed(x, b[1], b[2])
               \/ f.dot = 2 /\ \E a \in Pick(Atoms) : Malformed(x, a[2], a[3])
               \/ (f.dot = 1 \/ f.k \in Prefixes) /\ Malformed(x, ")", ")")
DoConstant(y) == Complete(y.stack) /\ y.n > 0 /\ Constant(y)

Init == st = Empty /\ hist = <<>>
\* kinds of step: the ones that fit, and when the text is long what leads to its end
Fits(x, k) == LET f == Top(x.stack)
              IN CASE k \in {"atom", "open", "prefix"} -> Open(x.stack) /\ Len(x.stack) < (IF k = "atom" THEN 100 ELSE 9)
                   [] k = "close" -> f.k \in {"(", "#("} /\ f.dot # 1
                   [] k = "dot" -> f.k = "(" /\ f.dot = 0 /\ f.items # <<>>
                   [] k = "constant" -> Complete(x.stack) /\ x.n > 0
                   [] OTHER -> TRUE
Ending(x) == IF Fits(x, "close") THEN "close" ELSE IF Complete(x.stack) THEN "constant" ELSE "atom"
KindsNow(x) == IF ~Sim THEN {k \in {Kinds[i] : i \in DOMAIN Kinds} : x.n < MaxTok \/ k \in {"constant", "bad"}}
               ELSE IF x.n >= MaxTok THEN {Ending(x)}
               ELSE LET ks == SelectSeq(Kinds, LAMBDA k : Fits(x, k)) IN IF ks = <<>> THEN {Ending(x)} ELSE {ks[RandomElement(DOMAIN ks)]}
From == IF Sim /\ Complete(st.stack) /\ st.n > 0 /\ RandomElement(1..5) = 1 THEN {Empty} ELSE {st}
Next == (Sim \/ Len(hist) < MaxLen) /\ \E x \in From : \E k \in KindsNow(x) :
  CASE k = "atom" -> DoAtom(x)
    [] k = "open" -> DoOpen(x)
    [] k = "close" -> DoClose(x)
    [] k = "prefix" -> DoPrefix(x)
    [] k = "dot" -> DoDot(x)
    [] k = "bad" -> DoBad(x)
    [] OTHER -> DoConstant(x)
View == st
Bound == st.n <= MaxTok
Inv == /\ st.stack[1].k = "top"
       /\ \A i \in 2..Len(st.stack) : /\ st.stack[i].k # "top"
                                      /\ st.stack[i].k \in Prefixes => st.stack[i].items = <<>>
                                      /\ st.stack[i].dot > 0 => st.stack[i].k = "(" /\ st.stack[i].items # <<>>
                                      /\ st.stack[i].dot = 2 => i = Len(st.stack)
\* a text that goes on never changes what was read before
Mono == [][st'.n > st.n => LET a == st.stack[1].items b == st'.stack[1].items IN Len(b) - Len(a) \in {0, 1} /\ SubSeq(b, 1, Len(a)) = a]_vars
=============================================================================
