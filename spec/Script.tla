------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* The command (C24) and the interactive loop (C29): a sequence of forms   *)
(* is evaluated one after the other; each writes to the standard output    *)
(* and ends with a value, without one, with an error, by leaving the       *)
(* program, or by continuing an earlier form.                              *)
(*                                                                         *)
(* A step of the history is <<layout:text, output>>.  In the text "~" is a *)
(* space where a line may be broken.  After exit the output ends in        *)
(* "^status"; for the interactive loop "%" stands for the rest of a line   *)
(* that is not claimed.                                                    *)
(***************************************************************************)
EXTENDS Path

CONSTANTS Values, Errors, Bads, Nothings, Kinds, Layouts, Depth, NFile, MaxLen, Repl, Sim
\* Values: {<<expression, as written, as displayed>>}; Errors, Bads, Nothings (what has no value): texts; Kinds: a sequence of the kinds of forms

VARIABLES st, files
vars == <<st, files, hist>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Value(v) == [k |-> "val", v |-> v]
\* an exhaustive run chooses from less
Of(all, few) == IF Sim THEN {RandomElement(all)} ELSE few
Vars == {"x", "y"}
\* in an exhaustive run of more than one kind of form, one of them
Few1(S) == IF Len(Kinds) > 2 THEN {CHOOSE e \in S : TRUE} ELSE S
NoCont == [have |-> FALSE]

\* the forms: those without parts, and how they are put together
Plain(kind) == CASE kind = "val" -> {Value(v) : v \in Pick(Values)}
                 [] kind = "ref" -> {[k |-> "ref", x |-> x] : x \in Of(Vars, {"x"})}
                 [] kind = "inc" -> {[k |-> "inc", x |-> x, n |-> n] : x \in Of(Vars, {"x"}), n \in Of({1, 10}, {1})}
                 [] kind = "def" -> {[k |-> "def", x |-> x, n |-> n] : x \in Of(Vars, {"x"}), n \in Of({0, 5}, {5})}
                 [] kind = "put" -> {[k |-> "put", x |-> x, n |-> n] : x \in Of(Vars, {"x"}), n \in Of({0, 5}, {5})}
                 [] kind = "display" -> {[k |-> "display", v |-> v] : v \in Pick(Values)}
                 [] kind = "write" -> {[k |-> "write", v |-> v] : v \in Pick(Values)}
                 [] kind = "show" -> {[k |-> "show", x |-> x] : x \in Of(Vars, {"x"})}
                 [] kind = "newline" -> {[k |-> "newline"]}
                 [] kind = "nothing" -> {[k |-> "nothing", e |-> e] : e \in Of(Nothings, Few1(Nothings))}
                 [] kind = "error" -> {[k |-> "error", e |-> e] : e \in Pick(Errors)}
                 [] OTHER -> {}
Unit == {Value(v) : v \in Pick({<<"'u", "u", "u">>})}
PlainKinds == {Kinds[i] : i \in DOMAIN Kinds} \cap {"val", "ref", "inc", "put", "display", "write", "show", "newline", "nothing", "error"}
APlain(z) == LET S == UNION {Plain(kind) : kind \in PlainKinds} IN IF S = {} THEN Unit ELSE S
RECURSIVE Composed(_, _), Sub(_)
Sub(d) == IF d = 0 THEN Pick(APlain(0))
          ELSE Pick(APlain(0) \cup UNION {Composed(kind, d) : kind \in {Kinds[i] : i \in DOMAIN Kinds} \ (PlainKinds \cup {"cap", "exit", "bad", "def"})})
Composed(kind, d) == CASE kind = "seq" -> {[k |-> "seq", a |-> a, b |-> b] : a \in Sub(d - 1), b \in Sub(d - 1)}
                       [] kind = "catch" -> {[k |-> "catch", a |-> a] : a \in Sub(d - 1)}
                       [] kind = "wind" -> {[k |-> "wind", a |-> a] : a \in Sub(d - 1)}
                       [] kind = "if" -> {[k |-> "if", x |-> x, n |-> n, a |-> a, b |-> b] : x \in Of(Vars, {"x"}), n \in Of({0, 5, 12}, {0}), a \in Sub(d - 1), b \in Sub(d - 1)}
                       [] kind = "jump" -> {[k |-> "jump", x |-> x] : x \in Of(Vars, {"x"})}
                       [] kind = "load" -> {[k |-> "load", f |-> f] : f \in Pick(1..Len(files))}
                       [] kind = "cap" -> {[k |-> "cap", t |-> t, x |-> x, a |-> a] : t \in Of(1..3, {1}), x \in Of(Vars, {"x"}), a \in Pick(APlain(0))}
                       [] kind = "exit" -> {[k |-> "exit", how |-> h, n |-> n, a |-> a] : h \in Pick({"top", "let", "catch", "after", "map", "load"}), n \in Of({"", "0", "1", "7", "255", "7.0", "-1"}, {"", "7"}), a \in Pick(APlain(0))}
                       [] OTHER -> Plain(kind)

\* as text
ExitText(n) == IF n = "" THEN "(exit)" ELSE "(exit " \o n \o ")"
RECURSIVE Text(_)
Text(f) == CASE f.k = "val" -> f.v[1]
             [] f.k = "ref" -> f.x
             [] f.k = "inc" -> "(set! " \o f.x \o "~(+ " \o f.x \o " " \o Str(f.n) \o "))"
             [] f.k = "def" -> "(define~" \o f.x \o "~" \o Str(f.n) \o ")"
             [] f.k = "put" -> "(set!~" \o f.x \o "~" \o Str(f.n) \o ")"
             [] f.k = "display" -> "(display~" \o f.v[1] \o ")"
             [] f.k = "write" -> "(write~" \o f.v[1] \o ")"
             [] f.k = "show" -> "(display " \o f.x \o ")"
             [] f.k = "newline" -> "(newline)"
             [] f.k \in {"nothing", "error"} -> f.e
             [] f.k = "seq" -> "(begin~" \o Text(f.a) \o "~" \o Text(f.b) \o ")"
             [] f.k = "catch" -> "(catch #t~(lambda ()~" \o Text(f.a) \o ")~(lambda (key . rest)~(display \"!\")~'caught))"
             [] f.k = "wind" -> "(dynamic-wind~(lambda () (display \"<\"))~(lambda ()~" \o Text(f.a) \o ")~(lambda () (display \">\")))"
             [] f.k = "if" -> "(if (> " \o f.x \o " " \o Str(f.n) \o ")~" \o Text(f.a) \o "~" \o Text(f.b) \o ")"
             [] f.k = "jump" -> "(k " \o f.x \o ")"
             [] f.k = "load" -> "(load~\"f" \o Str(f.f) \o ".scm\")"
             [] f.k = "cap" -> "(begin~(write (list " \o Str(f.t) \o "~(call/cc (lambda (c)~(set! k c)~" \o f.x \o "))))~" \o Text(f.a) \o ")"
             [] f.k = "bad" -> f.e
             [] OTHER -> LET e == ExitText(f.n) IN
                CASE f.how = "top" -> e
                  [] f.how = "let" -> "(let ((z 1))~(display \"z\")~" \o e \o "~(display \"never\"))"
                  [] f.how = "catch" -> "(catch #t~(lambda () " \o e \o ")~(lambda z (display \"never\")))"
                  [] f.how = "after" -> "(begin~" \o Text(f.a) \o "~" \o e \o "~'never)"
                  [] f.how = "map" -> "(map~(lambda (z)~(display z)~" \o e \o ")~'(1 2))"
                  [] OTHER -> "(load \"exit" \o f.n \o ".scm\")"

\* what a form does: the state after it, what it writes, how it ends, its value
Res(s, out, r, v) == [s |-> s, out |-> out, r |-> r, v |-> v]
Void == <<"", "">>
Both(t) == <<t, t>>
Then(p, q) == [q EXCEPT !.out = p.out \o @]
RECURSIVE Ev(_, _), EvAll(_, _, _)
Ev(f, s) ==
  CASE f.k = "val" -> Res(s, "", "val", <<f.v[2], f.v[3]>>)
    [] f.k = "ref" -> Res(s, "", "val", Both(Str(s[f.x])))
    [] f.k = "inc" -> Res([s EXCEPT ![f.x] = @ + f.n], "", "none", Void)
    [] f.k \in {"def", "put"} -> Res([s EXCEPT ![f.x] = f.n], "", "none", Void)
    [] f.k = "display" -> Res(s, f.v[3], "none", Void)
    [] f.k = "write" -> Res(s, f.v[2], "none", Void)
    [] f.k = "show" -> Res(s, Str(s[f.x]), "none", Void)
    [] f.k = "newline" -> Res(s, "\n", "none", Void)
    [] f.k = "nothing" -> Res(s, "", "none", Void)
    [] f.k = "error" -> Res(s, "", "err", Void)
    [] f.k = "seq" -> LET a == Ev(f.a, s) IN IF a.r \in {"val", "none"} THEN Then(a, Ev(f.b, a.s)) ELSE a
    [] f.k = "catch" -> LET a == Ev(f.a, s) IN IF a.r = "err" THEN Res(a.s, a.out \o "!", "val", Both("caught")) ELSE a
    [] f.k = "wind" -> LET a == Ev(f.a, s) IN [a EXCEPT !.out = "<" \o @ \o ">"]
    [] f.k = "if" -> IF s[f.x] > f.n THEN Ev(f.a, s) ELSE Ev(f.b, s)
    [] f.k = "jump" -> IF s.cont.have THEN Res(s, "", "jump", Both(Str(s[f.x]))) ELSE Res(s, "", "err", Void)
    [] f.k = "load" -> EvAll(files[f.f], s, 1)
    [] f.k = "cap" -> LET a == Ev(f.a, [s EXCEPT !.cont = [have |-> TRUE, t |-> f.t, a |-> f.a]])
                      IN [a EXCEPT !.out = ListText(<<Str(f.t), Str(s[f.x])>>) \o @]
    [] f.k = "bad" -> Res(s, "", "bad", Void)
    [] OTHER -> LET e == Res([s EXCEPT !.exit = CASE f.n = "" -> "0" [] f.n = "7.0" -> "7" [] f.n = "-1" -> "255" [] OTHER -> f.n], "", "exit", Void) IN
                CASE f.how = "let" -> [e EXCEPT !.out = "z"]
                  [] f.how = "map" -> [e EXCEPT !.out = "1"]
                  [] f.how = "load" -> [e EXCEPT !.out = "bye"]
                  [] f.how = "after" -> LET a == Ev(f.a, s) IN IF a.r \in {"val", "none"} THEN [e EXCEPT !.s = [a.s EXCEPT !.exit = e.s.exit], !.out = a.out] ELSE a
                  [] OTHER -> e
EvAll(fs, s, i) == IF i > Len(fs) THEN Res(s, "", "none", Void)
                   ELSE LET a == Ev(fs[i], s) IN IF a.r \notin {"val", "none"} \/ i = Len(fs) THEN a ELSE Then(a, EvAll(fs, a.s, i + 1))
\* a form of the script: a jump continues the form of the continuation, and then the form after this one comes
Top(f, s) == LET a == Ev(f, s)
                 c == a.s.cont
             IN IF a.r # "jump" THEN a ELSE Then([a EXCEPT !.out = @ \o ListText(<<Str(c.t), a.v[1]>>)], Ev(c.a, a.s))
Output(a) == IF a.r = "exit" THEN a.out \o "^" \o a.s.exit
             ELSE IF a.r = "bad" THEN "" ELSE IF Repl THEN a.out \o " --> " \o (IF a.r = "val" THEN a.v[2] ELSE "%") \o "\n"
             ELSE a.out \o (IF a.r = "val" THEN a.v[1] \o "\n" ELSE "")

\* the files that can be loaded come first
DoFile == /\ Len(files) < NFile
          /\ \E n \in Pick(0..3), a \in Sub(Depth - 1), b \in Sub(Depth - 1), c \in Sub(Depth - 1) :
               LET all == <<a, b, c>>
                   body == SubSeq(all, 1, n)
                   names == [i \in DOMAIN body |-> Text(body[i])]
               IN /\ files' = Append(files, body)
                  /\ UNCHANGED st
                  /\ hist' = Append(hist, <<"file:" \o Join(names, "~", 1), "">>)
DoForm == /\ Len(files) = NFile
          /\ \E kind \in Pick({Kinds[i] : i \in DOMAIN Kinds}), lay \in Pick(Layouts) :
              \E f \in Pick(IF kind = "bad" THEN {[k |-> "bad", e |-> e] : e \in Pick(Bads)} ELSE Composed(kind, Depth)) :
               LET a == Top(f, st)
               IN /\ st' = a.s
                  /\ UNCHANGED files
                  /\ hist' = Append(hist, <<(IF kind = "bad" THEN "bad" ELSE lay) \o ":" \o Text(f), Output(a)>>)
\* (nothing is done after exit, whatever follows)
DoRest == /\ st.exit # ""
          /\ \E v \in Pick(Values), kind \in Pick({"display", "val", "exit"}) :
                 hist' = Append(hist, <<"nl:" \o (IF kind = "display" THEN "(display " \o v[1] \o ")" ELSE IF kind = "val" THEN v[1] ELSE "(exit 99)"), "">>)
          /\ UNCHANGED <<st, files>>

Init == st = [x |-> 0, y |-> 3, cont |-> NoCont, exit |-> ""] /\ files = <<>> /\ hist = <<>>
Next == IF st.exit # "" THEN DoRest ELSE DoFile \/ DoForm
Spec == Init /\ [][Next]_vars
View == <<st, files, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]>>
Bound == Len(hist) <= MaxLen

Inv == /\ st.exit \in {"", "0", "1", "7", "255"}
       /\ st.x >= 0 /\ st.y >= 0
       \* (the text written after exit is none)
       /\ st.exit # "" => hist[Len(hist)][2] = "" \/ \E i \in DOMAIN hist : Len(hist[i][2]) >= 2
\* after exit nothing changes any more, and what was loaded does not
Mono == [][(st.exit # "" => st' = st) /\ (Len(files') < Len(files) => FALSE) /\ SubSeq(hist', 1, Len(hist)) = hist]_vars
=============================================================================
