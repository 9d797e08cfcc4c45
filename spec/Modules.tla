------------------------------- MODULE Modules -------------------------------
(***************************************************************************)
(* Modules (C14): what every module defines, exports and uses, which one   *)
(* is current, and what a name means in the code of each.                  *)
(*                                                                         *)
(* Code belongs to the module of its file, or to the module that was       *)
(* current when it was evaluated at top level; it sees what its module     *)
(* defines, then what that module uses (the latest use first), then what   *)
(* the root module defines, then what its binder makes, then what it       *)
(* autoloads.  A use gives what its module exports, or, if that exports    *)
(* nothing, all its definitions; always with the value of the moment.      *)
(*                                                                         *)
(* The names: x and y are variables, p a procedure that gives x, q one     *)
(* that adds 10 to x, and m a macro for x at the moment of its expansion;  *)
(* p, q and m know the x of the module that defines them.                  *)
(*                                                                         *)
(* The first steps of a history choose the files of modules; then the      *)
(* program does one thing after the other at top level.                    *)
(***************************************************************************)
EXTENDS Path

CONSTANTS FileMods, Mods, FKinds, FLen, Kinds, MaxLen, Few, Sim
\* FileMods, FKinds, Kinds: sequences; Mods: all but the root module; Few: the names and modules an exhaustive run uses

VARIABLES st, files
vars == <<st, files, hist>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Of(all, few) == IF Sim THEN {RandomElement(all)} ELSE few
Range(q) == {q[i] : i \in DOMAIN q}
Data == {"x", "y"}
Code == {"p", "q", "m"}
Names == <<"x", "y", "p", "q", "m">>
SomeData(z) == Of(Data, Few.data)
SomeName(z) == Of(Range(Names), Few.names)
SomeMod(z) == Of(Mods, Few.mods)
SomeNum(z) == Of(1..9, {1})
Named(m) == CASE m = "r" -> "(pscm-user)" [] m = "b" -> "(lib b)" [] m = "c" -> "(lib sub c)" [] OTHER -> "(" \o m \o ")"
Quoted(m) == "'" \o Named(m)
NoFun == [n \in {} |-> 0]
With(own, x, v) == [n \in DOMAIN own \cup {x} |-> IF n = x THEN v ELSE own[n]]
NoModule == [reg |-> FALSE, own |-> NoFun, exp |-> {}, iface |-> FALSE, snap |-> {}, uses |-> <<>>, binds |-> {}, auto |-> <<>>]
List(set) == SelectSeq(Names, LAMBDA n : n \in set)

------------------------------------------------------------------------------
\* What a name means.  A variable is told by its module; "none": there is none; "?": not claimed
\* (a name exported while it was found elsewhere, and which is not there any more)
RECURSIVE Used(_, _, _, _), UsedOf(_, _, _, _, _)
Used(s, u, x, seen) ==
  LET w == s.ms[u]
  IN CASE w.iface /\ x \notin w.exp -> "none"
       [] x \in DOMAIN w.own -> u
       [] ~w.iface \/ u \in seen -> "none"
       [] OTHER -> LET f == UsedOf(s, w.uses, 1, x, seen \cup {u}) IN IF f = "none" /\ x \in w.snap THEN "?" ELSE f
UsedOf(s, uses, i, x, seen) ==
  IF i > Len(uses) THEN "none"
  ELSE LET f == Used(s, uses[i], x, seen) IN IF f = "none" THEN UsedOf(s, uses, i + 1, x, seen) ELSE f
OwnUsed(s, c, x) == IF x \in DOMAIN s.ms[c].own THEN c ELSE UsedOf(s, s.ms[c].uses, 1, x, {})
Find(s, c, x) == LET f == OwnUsed(s, c, x) IN IF f = "none" /\ x \in DOMAIN s.ms["r"].own THEN "r" ELSE f

\* r: "var" (of the module v), "val" (made by the binder), "none", "err" or "?"
Res(s, r, v) == [s |-> s, r |-> r, v |-> v]
Bound77 == 77
RECURSIVE Search(_, _, _), Load(_, _), Eval(_, _), EvalAll(_, _, _), Export(_, _, _, _), Options(_, _, _, _)
Search(s, c, x) ==
  LET f == Find(s, c, x)
      w == s.ms[c]
  IN CASE f = "?" -> Res(s, "?", "")
       [] f # "none" -> Res(s, "var", f)
       [] x \in w.binds -> Res(s, "val", "")
       [] w.auto # <<>> /\ x \in w.auto[1].xs ->
            LET l == Load([s EXCEPT !.ms[c].auto = <<>>], w.auto[1].m)
            IN IF l.r # "val" THEN l ELSE Search([l.s EXCEPT !.ms[c].uses = <<w.auto[1].m>> \o @], c, x)
       [] OTHER -> Res(s, "none", "")
\* in code of c; what only the current module knows is not claimed
Lookup(s, c, x) ==
  LET a == Search(s, c, x)
  IN IF a.r # "none" \/ c = s.cur THEN a
     ELSE LET b == Search(a.s, s.cur, x) IN IF b.r = "none" /\ b.s = a.s THEN a ELSE Res(a.s, "?", "")
\* the value of a variable of data in code of c: r is "val", "err" or "?"
ValueOf(s, c, x) ==
  LET a == Lookup(s, c, x)
  IN CASE a.r = "var" -> Res(a.s, "val", a.s.ms[a.v].own[x])
       [] a.r = "val" -> Res(a.s, "val", Bound77)
       [] a.r = "none" -> Res(a.s, "err", 0)
       [] OTHER -> Res(a.s, a.r, 0)
SetIn(s, c, x, n) ==
  LET f == Find(s, c, x)
  IN IF f \in {"none", "?"} THEN Res(s, "?", 0) ELSE Res([s EXCEPT !.ms[f].own[x] = n], "val", n)
\* what the code named x does when it is called in code of c
CallCode(s, c, x) ==
  LET a == Lookup(s, c, x)
  IN CASE a.r = "none" -> Res(a.s, "err", 0)
       [] a.r # "var" -> Res(a.s, a.r, 0)
       [] x = "q" -> LET o == a.s.ms[a.v].own[x]
                         b == ValueOf(a.s, o, "x")
                     IN IF b.r # "val" THEN b ELSE SetIn(b.s, o, "x", b.v + 10)
       [] OTHER -> ValueOf(a.s, a.s.ms[a.v].own[x], "x")

------------------------------------------------------------------------------
\* What the forms do (at top level of a program or of a module's file)
Define(s, x, v) == Res([s EXCEPT !.ms[s.cur].own = With(@, x, v)], "val", "")
Exported(a, s, c, x) == IF a.r \notin {"var", "val", "none"} THEN Res(a.s, "?", "")
                        ELSE Res([a.s EXCEPT !.ms[c].exp = @ \cup {x}, !.ms[c].iface = TRUE, !.ms[c].snap = IF a.r = "none" THEN @ ELSE @ \cup {x}], "val", "")
Export(s, c, xs, i) == IF i > Len(xs) THEN Res(s, "val", "")
                       ELSE LET a == Exported(Search(s, c, xs[i]), s, c, xs[i]) IN IF a.r # "val" THEN a ELSE Export(a.s, c, xs, i + 1)
UseIn(s, c, u) == LET l == Load(s, u) IN IF l.r # "val" THEN l ELSE Res([l.s EXCEPT !.ms[c].uses = <<u>> \o @], "val", "")
\* the file of a module is loaded once; an error in it leaves the module as it is then
Load(s, m) ==
  IF s.ms[m].reg THEN Res(s, "val", "")
  ELSE LET s1 == [s EXCEPT !.ms[m].reg = TRUE]
       IN IF m \notin DOMAIN files THEN Res(s1, "val", "")
          ELSE LET a == EvalAll(files[m], [s1 EXCEPT !.cur = m], 1)
               IN Res([a.s EXCEPT !.cur = s.cur], a.r, "")
Options(s, m, os, i) ==
  IF i > Len(os) THEN Res(s, "val", "")
  ELSE LET o == os[i]
           a == CASE o.o = "use" -> UseIn(s, m, o.m)
                  [] o.o = "export" -> Export(s, m, o.xs, 1)
                  [] OTHER -> IF s.ms[m].auto # <<>> THEN Res(s, "?", "") ELSE Res([s EXCEPT !.ms[m].auto = <<[m |-> o.m, xs |-> Range(o.xs)]>>], "val", "")
       IN IF a.r # "val" THEN a ELSE Options(a.s, m, os, i + 1)
EvalAll(fs, s, i) == IF i > Len(fs) THEN Res(s, "val", "")
                     ELSE LET a == Eval(fs[i], s) IN IF a.r # "val" THEN a ELSE EvalAll(fs, a.s, i + 1)
Both(a, b) == Res(b.s, IF a.r # "val" THEN a.r ELSE b.r, b.v)
Eval(f, s) ==
  CASE f.k = "mod" -> LET a == Options([s EXCEPT !.ms[f.m].reg = TRUE], f.m, f.os, 1) IN IF a.r # "val" THEN a ELSE Res([a.s EXCEPT !.cur = f.m], "val", "")
    [] f.k = "def" -> Define(s, f.x, f.n)
    [] f.k = "pub" -> LET a == Define(s, f.x, f.n) IN Export(a.s, s.cur, <<f.x>>, 1)
    [] f.k = "code" -> Define(s, f.x, s.cur)
    [] f.k = "pcode" -> LET a == Define(s, f.x, s.cur) IN Export(a.s, s.cur, <<f.x>>, 1)
    [] f.k \in {"export", "re-export"} -> Export(s, s.cur, f.xs, 1)
    [] f.k = "use" -> UseIn(s, s.cur, f.m)
    [] f.k = "use2" -> LET a == UseIn(s, s.cur, f.m) IN IF a.r # "val" THEN a ELSE UseIn(a.s, s.cur, f.m2)
    [] f.k = "copy" -> LET a == ValueOf(s, s.cur, f.x) IN IF a.r # "val" THEN a ELSE Define(a.s, IF f.x = "x" THEN "y" ELSE "x", a.v)
    [] f.k = "set" -> SetIn(s, s.cur, f.x, f.n)
    [] f.k = "mark" -> Res([s EXCEPT !.loads = <<f.m>> \o @], "val", "")
    [] OTHER -> Res(s, "err", "")

RECURSIVE OptText(_, _)
OptText(os, i) == IF i > Len(os) THEN ""
                  ELSE LET o == os[i]
                       IN (CASE o.o = "use" -> " #:use-module " \o Named(o.m)
                             [] o.o = "export" -> " #:export " \o (IF o.list THEN ListText(o.xs) ELSE Join(o.xs, " ", 1))
                             [] OTHER -> " #:autoload " \o Named(o.m) \o " " \o (IF o.list THEN ListText(o.xs) ELSE Join(o.xs, " ", 1))) \o OptText(os, i + 1)
Body(x) == CASE x = "q" -> "(set! x (+ x 10)) x" [] OTHER -> "x"
FormText(f) ==
  CASE f.k = "mod" -> "(define-module " \o Named(f.m) \o OptText(f.os, 1) \o ")"
    [] f.k = "def" -> "(define " \o f.x \o " " \o Str(f.n) \o ")"
    [] f.k = "pub" -> "(define-public " \o f.x \o " " \o Str(f.n) \o ")"
    [] f.k = "code" -> IF f.x = "m" THEN "(define-macro (m) (list 'quote x))"
                       ELSE IF f.lam THEN "(define " \o f.x \o " (let ((z 1)) (lambda () " \o Body(f.x) \o ")))" ELSE "(define (" \o f.x \o ") " \o Body(f.x) \o ")"
    [] f.k = "pcode" -> IF f.lam THEN "(define-public " \o f.x \o " (lambda () " \o Body(f.x) \o "))" ELSE "(define-public (" \o f.x \o ") " \o Body(f.x) \o ")"
    [] f.k \in {"export", "re-export"} -> "(" \o f.k \o " " \o Join(f.xs, " ", 1) \o ")"
    [] f.k = "use" -> IF f.c THEN "(%c 'use '" \o Named(f.m) \o ")" ELSE "(use-modules " \o Named(f.m) \o ")"
    [] f.k = "use2" -> "(use-modules " \o Named(f.m) \o " " \o Named(f.m2) \o ")"
    [] f.k = "copy" -> "(define " \o (IF f.x = "x" THEN "y" ELSE "x") \o " " \o f.x \o ")"
    [] f.k = "set" -> "(set! " \o f.x \o " " \o Str(f.n) \o ")"
    [] f.k = "mark" -> "(set! %loads (cons '" \o f.m \o " %loads))"
    [] OTHER -> "(car '())"

\* the options of define-module
Seqs(S) == {<<a>> : a \in S} \cup {p \in S \X S : p[1] # p[2]}
XsOf(z) == IF Sim THEN LET a == RandomElement(Range(Names)) b == RandomElement(Range(Names)) IN {IF a = b \/ RandomElement(BOOLEAN) THEN <<a>> ELSE <<a, b>>} ELSE {<<n>> : n \in Few.names}
NoMac(xs) == SelectSeq(xs, LAMBDA x : x # "m")
Option(z) == IF Sim THEN LET o == RandomElement({1, 2, 3, 4, 5})
                          xs == CHOOSE q \in XsOf(0) : TRUE
                      IN {CASE o < 3 -> [o |-> "use", m |-> RandomElement(Mods)]
                            [] o < 5 \/ NoMac(xs) = <<>> -> [o |-> "export", xs |-> xs, list |-> RandomElement(BOOLEAN)]
                            [] OTHER -> [o |-> "auto", m |-> RandomElement(Mods), xs |-> NoMac(xs), list |-> RandomElement(BOOLEAN)]}
          ELSE {[o |-> "use", m |-> m] : m \in Few.mods} \cup {[o |-> "export", xs |-> xs, list |-> l] : xs \in XsOf(0), l \in BOOLEAN}
               \cup {[o |-> "auto", m |-> m, xs |-> xs, list |-> TRUE] : m \in Few.mods, xs \in {<<"x">>}}
Opts(z) == IF Sim THEN LET n == RandomElement(0..3) IN {CASE n = 0 -> <<>> [] n = 1 -> <<CHOOSE o \in Option(0) : TRUE>> [] OTHER -> <<CHOOSE o \in Option(0) : TRUE, CHOOSE o \in Option(0) : TRUE>>}
        ELSE {<<>>} \cup {<<o>> : o \in Option(0)}
\* an autoload comes once
AutoOnce(os) == Len(SelectSeq(os, LAMBDA o : o.o = "auto")) <= 1
Forms(kind, m) ==
  CASE kind = "mod" -> {[k |-> "mod", m |-> m, os |-> os] : os \in {q \in Opts(0) : AutoOnce(q)}}
    [] kind = "def" -> {[k |-> "def", x |-> x, n |-> n] : x \in SomeData(0), n \in SomeNum(0)}
    [] kind = "pub" -> {[k |-> "pub", x |-> x, n |-> n] : x \in SomeData(0), n \in SomeNum(0)}
    [] kind = "code" -> {[k |-> "code", x |-> x, lam |-> l] : x \in Of(Code, Few.names \cap Code), l \in Of(BOOLEAN, {FALSE})}
    [] kind = "pcode" -> {[k |-> "pcode", x |-> x, lam |-> l] : x \in Of({"p", "q"}, Few.names \cap {"p", "q"}), l \in Of(BOOLEAN, {FALSE})}
    [] kind \in {"export", "re-export"} -> {[k |-> kind, xs |-> xs] : xs \in XsOf(0)}
    [] kind = "use" -> {[k |-> "use", m |-> u, c |-> IF Sim THEN RandomElement({TRUE, FALSE, FALSE}) ELSE FALSE] : u \in SomeMod(0)}
    [] kind = "use2" -> {[k |-> "use2", m |-> u, m2 |-> v] : u \in SomeMod(0), v \in SomeMod(0)}
    [] kind = "copy" -> {[k |-> "copy", x |-> x] : x \in SomeData(0)}
    [] kind = "set" -> {[k |-> "set", x |-> x, n |-> n] : x \in SomeData(0), n \in SomeNum(0)}
    [] OTHER -> {[k |-> "error"]}

------------------------------------------------------------------------------
Header(m) == IF Sim THEN (IF RandomElement(1..8) = 1 THEN {<<>>} ELSE {<<f>> : f \in Forms("mod", m)}) ELSE {<<f>> : f \in Forms("mod", m)}
NextForm(m) == IF FKinds = <<>> THEN {} ELSE UNION {Forms(kind, m) : kind \in IF Sim THEN {FKinds[RandomElement(DOMAIN FKinds)]} ELSE Range(FKinds)}
Bodies(m) == IF Sim THEN LET n == RandomElement(0..FLen) IN {[i \in 1..n |-> CHOOSE f \in NextForm(m) : TRUE]}
             ELSE {<<>>} \cup {<<f>> : f \in NextForm(m)} \cup (IF FLen < 2 THEN {} ELSE {<<f, g>> : f \in NextForm(m), g \in NextForm(m)})
Texts(fs) == [i \in DOMAIN fs |-> FormText(fs[i])]
DoFile == /\ Cardinality(DOMAIN files) < Len(FileMods)
          /\ LET m == FileMods[Cardinality(DOMAIN files) + 1]
             IN \E h \in Header(m), b \in Bodies(m), e \in Pick({TRUE, FALSE}) :
                  LET mark == <<[k |-> "mark", m |-> m]>>
                      fs == IF e THEN mark \o h \o b ELSE h \o b \o mark
                  IN /\ files' = With(files, m, fs)
                     /\ hist' = Append(hist, <<"file:" \o m \o ":" \o Join(Texts(fs), "\n", 1), "">>)
                     /\ UNCHANGED st

\* An operation of the program: its text, whether it is a form of its own (without a result), and its effect: r, s, v
Op(t, form, a) == [t |-> t, form |-> form, a |-> a]
Text(a, v) == IF a.r = "err" THEN "!error" ELSE v
Resolved(m) == "(resolve-module " \o Quoted(m) \o ")"
NameList(set) == ListText([i \in DOMAIN Names |-> IF Names[i] \in set THEN Names[i] ELSE "-"])
AllMods == Mods \cup {"r"}
AnyMod(z) == Of(AllMods, Few.mods)
Done(a) == Res(a.s, a.r, "done")
Num(a) == Res(a.s, a.r, IF a.r = "val" THEN Str(a.v) ELSE "")
\* the operations that come after m is resolved
After(s, m, F(_)) == LET l == Load(s, m) IN IF l.r # "val" THEN l ELSE F(l.s)
RefRes(a, x, otherwise) == CASE a.r = "var" -> Res(a.s, "val", Str(a.s.ms[a.v].own[x]))
                             [] a.r = "val" -> Res(a.s, "val", Str(Bound77))
                             [] a.r = "none" -> IF otherwise = "" THEN Res(a.s, "err", "") ELSE Res(a.s, "val", otherwise)
                             [] OTHER -> a
IfaceRef(s, m, x) == IF ~s.ms[m].iface THEN RefRes(Search(s, m, x), x, "none")
                     ELSE LET f == Used(s, m, x, {})
                          IN CASE f = "?" -> Res(s, "?", "")
                               [] f = "none" -> IF x \in DOMAIN s.ms["r"].own THEN Res(s, "?", "") ELSE Res(s, "val", "none")
                               [] OTHER -> Res(s, "val", Str(s.ms[f].own[x]))
AtX(s) == LET a == ValueOf(s, s.cur, "x") IN Res(a.s, a.r, IF a.r = "val" THEN ListText(<<"at", Str(a.v)>>) ELSE "")
Simple == {"def", "pub", "code", "pcode", "copy"}
Ops(kind, s) ==
  CASE kind \in Simple -> {Op(FormText(f), TRUE, Eval(f, s)) : f \in IF s.cur = "r" /\ kind \in {"pub", "pcode"} THEN {} ELSE Forms(kind, s.cur)}
    [] kind \in {"export", "re-export", "use", "use2"} -> {Op("(begin " \o FormText(f) \o " 'done)", FALSE, Done(Eval(f, s))) : f \in IF s.cur = "r" /\ kind \in {"export", "re-export"} THEN {} ELSE Forms(kind, s.cur)}
    [] kind = "set" -> {Op("(begin " \o FormText(f) \o " 'done)", FALSE, Done(Eval(f, s))) : f \in Forms(kind, s.cur)}
    [] kind = "mod" -> UNION {{Op("(begin " \o FormText(f) \o " 'done)", FALSE, Done(Eval(f, s))) : f \in Forms("mod", m)} : m \in SomeMod(0)}
    [] kind = "read" -> {Op("(begin " \o x \o ")", FALSE, Num(ValueOf(s, s.cur, x))) : x \in SomeData(0)}
    [] kind = "call" -> {Op("(" \o x \o ")", FALSE, Num(CallCode(s, s.cur, x))) : x \in Of(Code, Few.names \cap Code)}
    [] kind = "callin" -> {Op("((module-ref " \o Resolved(m) \o " '" \o x \o "))", FALSE,
                              Num(After(s, m, LAMBDA t : LET a == Search(t, m, x)
                                                         IN IF a.r = "none" THEN Res(a.s, "err", 0) ELSE IF a.r # "var" THEN a
                                                            ELSE IF x = "q" THEN LET o == a.s.ms[a.v].own[x] b == ValueOf(a.s, o, "x") IN IF b.r # "val" THEN b ELSE SetIn(b.s, o, "x", b.v + 10)
                                                            ELSE ValueOf(a.s, a.s.ms[a.v].own[x], "x"))))
                           : m \in AnyMod(0), x \in Of({"p", "q"}, Few.names \cap {"p", "q"})}
    [] kind = "ref" -> {Op("(module-ref " \o Resolved(m) \o " '" \o x \o (IF d THEN " 'none)" ELSE ")"), FALSE, After(s, m, LAMBDA t : RefRes(Search(t, m, x), x, IF d THEN "none" ELSE "")))
                        : m \in AnyMod(0), x \in SomeData(0), d \in Of(BOOLEAN, {TRUE})}
    [] kind = "bound" -> {Op("(module-bound? " \o Resolved(m) \o " '" \o x \o ")", FALSE,
                             After(s, m, LAMBDA t : LET a == Search(t, m, x) IN IF a.r \in {"err", "?"} THEN a ELSE Res(a.s, "val", BoolText(a.r # "none"))))
                          : m \in AnyMod(0), x \in Of(Data \cup {"p", "q"}, Few.data)}
    [] kind = "names" -> {Op("(%names " \o Resolved(m) \o ")", FALSE, After(s, m, LAMBDA t : Res(t, "val", NameList(DOMAIN t.ms[m].own)))) : m \in SomeMod(0)}
    [] kind = "exports" -> {Op("(%names (module-ref " \o Resolved(m) \o " '%module-public-interface))", FALSE,
                               After(s, m, LAMBDA t : Res(t, "val", NameList(IF t.ms[m].iface THEN t.ms[m].exp ELSE DOMAIN t.ms[m].own)))) : m \in SomeMod(0)}
    [] kind = "iface" -> {Op("(module-ref (module-ref " \o Resolved(m) \o " '%module-public-interface) '" \o x \o " 'none)", FALSE, After(s, m, LAMBDA t : IfaceRef(t, m, x)))
                          : m \in SomeMod(0), x \in SomeData(0)}
    [] kind = "switch" -> {Op("(begin (set-current-module " \o Resolved(m) \o ") 'done)", FALSE, After(s, m, LAMBDA t : Res([t EXCEPT !.cur = m], "val", "done"))) : m \in AnyMod(0)}
    [] kind = "root" -> {Op("(begin (define-module (pscm-user)) 'done)", FALSE, Res([s EXCEPT !.cur = "r"], "val", "done"))}
    [] kind = "current" -> {Op("(eq? (current-module) " \o Resolved(m) \o ")", FALSE, After(s, m, LAMBDA t : Res(t, "val", BoolText(t.cur = m)))) : m \in Of(AllMods, {s.cur})}
    [] kind = "muse" -> {Op("(begin (module-use! " \o Resolved(m) \o " " \o (IF d THEN Quoted(u) ELSE Resolved(u)) \o ") 'done)", FALSE, After(s, m, LAMBDA t : Done(UseIn(t, m, u))))
                         : m \in AnyMod(0), u \in SomeMod(0), d \in Of(BOOLEAN, {TRUE})}
    [] kind = "binder" -> {Op("(begin (set-module-binder! " \o Resolved(m) \o " (lambda (mod sym def) (if (eq? sym '" \o x \o ") 77 #f))) 'done)", FALSE, After(s, m, LAMBDA t : Res([t EXCEPT !.ms[m].binds = {x}], "val", "done")))
                           : m \in AnyMod(0), x \in SomeData(0)}
    \* a binder of another module is left by a throw, by an error, by a continuation, or gives a value; the binders go on as before
    [] kind = "leave" -> {Op(o[1], FALSE, Res(s, "val", o[2])) : o \in Of({<<"(catch 'out (lambda () (module-ref %scratch 'thrown 'none)) (lambda l 'thrown))", "thrown">>,
                             <<"(call/cc (lambda (c) (set! %leave c) (module-ref %scratch 'jumped 'none)))", "jumped">>, <<"(catch #t (lambda () (module-bound? %scratch 'failed)) (lambda l 'failed))", "failed">>,
                             <<"(module-ref %scratch 'given 'none)", "78">>, <<"(module-ref %scratch 'absent 'none)", "none">>}, {})}
    [] kind = "capture" -> {Op("(begin (call/cc (lambda (c) (set! %k c))) (list 'at x))", FALSE, LET a == AtX([s EXCEPT !.k = s.cur]) IN a)}
    [] kind = "jump" -> IF s.k = "" THEN {} ELSE {Op("(%k 0)", FALSE, AtX([s EXCEPT !.cur = s.k]))}
    [] OTHER -> {Op("(begin %loads)", FALSE, Res(s, "val", ListText(s.loads)))}
DoOp == /\ Cardinality(DOMAIN files) = Len(FileMods)
        /\ \E kind \in (IF Sim THEN {"loads"} \cup {Kinds[RandomElement(DOMAIN Kinds)] : i \in 1..8} ELSE Range(Kinds)) :
             \E o \in Ops(kind, st) :
               /\ o.a.r # "?"
               \* (errors are less interesting)
               /\ ~Sim \/ o.a.r # "err" \/ RandomElement(1..5) = 1
               /\ st' = o.a.s
               /\ UNCHANGED files
               /\ hist' = Append(hist, <<(IF o.form THEN "!!" ELSE "") \o o.t, Text(o.a, o.a.v)>>)
Init == /\ st = [ms |-> [m \in AllMods |-> [NoModule EXCEPT !.reg = (m = "r")]], cur |-> "r", loads |-> <<>>, k |-> ""]
        /\ files = NoFun
        /\ hist = <<>>
Next == DoFile \/ DoOp
Bound == Len(hist) <= MaxLen
View == <<st, files, Len(hist)>>

\* exported names come with an interface, a file is loaded once, an interface gives nothing that is not exported, and code knows a module there is
Inv == /\ \A m \in AllMods : st.ms[m].iface <=> st.ms[m].exp # {}
       /\ \A i, j \in DOMAIN st.loads : i # j => st.loads[i] # st.loads[j]
       /\ \A i \in DOMAIN st.loads : st.ms[st.loads[i]].reg
       /\ st.ms[st.cur].reg
       /\ \A m \in Mods, x \in Range(Names) : st.ms[m].iface /\ x \notin st.ms[m].exp => Used(st, m, x, {}) = "none"
       /\ \A m \in AllMods, x \in Range(Names) : x \in DOMAIN st.ms[m].own => Find(st, m, x) = m
       /\ \A m \in AllMods, x \in Code : x \in DOMAIN st.ms[m].own => st.ms[m].own[x] \in AllMods
\* definitions, exports and loaded files stay; an assignment or a definition changes a variable of one module only, unless a file is loaded
Stays == [][/\ \A m \in AllMods : /\ DOMAIN st.ms[m].own \subseteq DOMAIN st'.ms[m].own
                                  /\ st.ms[m].exp \subseteq st'.ms[m].exp
                                  /\ st.ms[m].reg => st'.ms[m].reg
            /\ st'.loads = st.loads => Cardinality({m \in AllMods : \E x \in DOMAIN st.ms[m].own : st'.ms[m].own[x] # st.ms[m].own[x]}) <= 1]_vars
==============================================================================
