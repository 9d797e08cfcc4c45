-------------------------------- MODULE Capi --------------------------------
(***************************************************************************)
(* The C interface (C21): a program calls the interpreter's C functions    *)
(* one after the other, and Scheme code calls C functions that call the    *)
(* interface again.  Both act on the same variables of the same modules.   *)
(*                                                                         *)
(* An expression is a tree; Text writes it, Ev says what it does.  A call  *)
(* of the interface is the Scheme expression (%c 'op arg ...), whose       *)
(* arguments are evaluated, or in place of a toplevel form (%C op arg ...),*)
(* which the C program does itself with the arguments as they stand.       *)
(***************************************************************************)
EXTENDS Path

CONSTANTS Kinds, Tops, Lits, Throws, Depth, MaxLen, Sim
\* Kinds: sequence of the kinds of expressions; Tops: of what the C program does
\* Lits: {<<expression, value, what it is as an expression>>}; Throws: {<<arguments, as values, the message in it>>}

VARIABLE st
vars == <<st, hist>>

Mods == {"root", "m"}
Names == {"x", "y"}
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Of(all, few) == IF Sim THEN {RandomElement(all)} ELSE few
Range(q) == {q[i] : i \in DOMAIN q}

\* ------------------------------------------------------------ what there is
NoFun == [k |-> "none"]
Init == /\ st = [v |-> [root |-> [x |-> "x0", y |-> "y0"], m |-> [x |-> "", y |-> ""]], cur |-> "root", g |-> [root |-> NoFun, m |-> NoFun], h |-> FALSE, log |-> "", out |-> ""]
        /\ hist = <<>>
\* the value of a name in the code of a module
Value(s, mod, n) == IF s.v[mod][n] # "" THEN s.v[mod][n] ELSE s.v["root"][n]
Holder(s, mod, n) == IF s.v[mod][n] # "" THEN mod ELSE "root"
Fun(s, mod) == IF s.g[mod].k # "none" THEN s.g[mod] ELSE s.g["root"]
Note(s, t) == [s EXCEPT !.log = @ \o " " \o t]
ModName(mod) == IF mod = "root" THEN "(pscm-user)" ELSE "(m)"

\* ------------------------------------------------------------- expressions
Leaves == {"lit", "ref", "err", "unbound", "thr", "look", "mlook", "cur", "disp"}
\* those that only stand in code that is data, and those that need a continuation around
Datum == {"def"}
Escaping == {"out"}
Hows == {"s", "call", "apply", "sapply"}
AKind(d, ks, dat) == LET ok(q) == SelectSeq(q, LAMBDA k : (k \in Datum => dat) /\ (k \in Escaping => ks > 0) /\ (d <= 0 => k \in Leaves \/ (d = 0 /\ k \in Escaping \cup Datum)))
                         q == ok(Kinds)
                     IN IF Len(q) = 0 THEN {"lit"} ELSE IF Sim THEN {q[RandomElement(DOMAIN q)]} ELSE Range(q)
Few(z) == IF Sim THEN Lits ELSE {CHOOSE l \in Lits : l[3] = "err" \/ \A o \in Lits : o[3] # "err"}
RECURSIVE Sub(_, _, _, _), Gen(_, _, _, _)
\* s: the state before the step; ks: how many continuations are around; dat: whether this is data for eval
Sub(d, ks, dat, s) == UNION {Gen(k, d, ks, s) : k \in AKind(d, ks, dat)}
Args(n, d, ks, s) == LET e(z) == IF d <= 0 \/ \E mod \in Mods : s.g[mod].k = "evaluator" THEN {[k |-> "lit", l |-> l] : l \in Pick(Few(0))} ELSE Sub(d - 1, ks, FALSE, s)
                     IN CASE n = 0 -> {<<>>}
                          [] n = 1 -> {<<a>> : a \in e(0)}
                          [] n = 2 -> {<<a, b>> : a \in e(0), b \in e(1)}
                          [] OTHER -> {<<a, b, c>> : a \in e(0), b \in e(1), c \in e(2)}
Gen(k, d, ks, s) ==
  CASE k = "lit" -> {[k |-> k, l |-> l] : l \in Pick(Lits)}
    [] k \in {"ref"} -> {[k |-> k, n |-> n] : n \in Of(Names, {"x"})}
    [] k = "look" -> {[k |-> k, n |-> n, how |-> how] : n \in Of(Names, {"x"}), how \in Pick({"lookup", "find"})}
    [] k = "mlook" -> {[k |-> k, n |-> n, mod |-> mod] : n \in Of(Names, {"x"}), mod \in Pick(Mods)}
    [] k = "cur" -> {[k |-> k, mod |-> mod] : mod \in Pick(Mods)}
    [] k \in {"err", "unbound"} -> {[k |-> k]}
    [] k = "disp" -> {[k |-> k, l |-> l] : l \in Pick({l \in Lits : l[2] # "\"s\""})}
    [] k \in {"thr", "cthr"} -> {[k |-> k, key |-> key, t |-> t] : key \in Of({"k1", "k2", "error"}, {"k1"}), t \in Pick(Throws)}
    [] k \in {"set", "def", "cdef"} -> {[k |-> k, n |-> n, a |-> a] : n \in Of(Names, {"x"}), a \in Sub(d - 1, ks, FALSE, s)}
    [] k = "cmdef" -> {[k |-> k, mod |-> mod, n |-> n, a |-> a] : mod \in Pick(Mods), n \in Of(Names, {"x"}), a \in Sub(d - 1, ks, FALSE, s)}
    [] k = "list" -> {[k |-> k, a |-> a, b |-> b] : a \in Sub(d - 1, ks, FALSE, s), b \in Sub(d - 1, ks, FALSE, s)}
    [] k \in {"note", "wind", "thunk"} -> {[k |-> k, a |-> a] : a \in Sub(d - 1, ks, FALSE, s)}
    [] k \in {"scatch", "ccatch"} -> {[k |-> k, key |-> key, a |-> a] : key \in Of({"'k1", "'error", "#t"}, {"'k1", "#t"}), a \in Sub(d - 1, ks, FALSE, s)}
    [] k = "esc" -> {[k |-> k, i |-> ks + 1, a |-> a] : a \in Sub(d - 1, ks + 1, FALSE, s)}
    [] k = "out" -> {[k |-> k, i |-> i, how |-> how, a |-> a] : i \in Pick(1..ks), how \in Of(Hows, {"s", "call"}),
                                                              a \in IF d <= 0 THEN {[k |-> "lit", l |-> l] : l \in Pick(Lits)} ELSE Sub(d - 1, ks, FALSE, s)}
    [] k = "pcall" -> UNION {{[k |-> k, f |-> f, how |-> how, as |-> as] : as \in UNION {Args(n, d, ks, s) : n \in Of({1, 1, 2, IF f = "q" THEN 2 ELSE 1, RandomElement({0, 3})}, {1})}}
                                   : f \in Of({"p", "q", "r", "list"}, {"p"}), how \in Of(Hows, {"call", "apply"})}
    [] k = "gcall" -> LET r == Fun(s, s.cur)
                          n == IF r.k = "fixed" /\ Sim THEN Pick({r.n, r.n, r.n, RandomElement(0..3)}) ELSE IF Sim THEN Pick({1, 1, RandomElement(0..3)}) ELSE {0, 1}
                      IN {[k |-> k, f |-> "g", how |-> how, as |-> as] : how \in Of(Hows, {"call", "s"}), as \in UNION {Args(i, d, ks, s) : i \in n}}
    [] k = "ceval" -> {[k |-> k, how |-> how, a |-> a] : how \in Pick({"eval-string", "eval"}), a \in Sub(d - 1, 0, TRUE, s)}
    [] k = "cevs" -> {[k |-> k, how |-> how, a |-> a, b |-> b] : how \in Pick({"eval-all", "eval-file", "load"}), a \in Sub(d - 1, 0, TRUE, s), b \in Sub(d - 1, 0, TRUE, s)}
    [] k = "cin" -> UNION {{[k |-> k, mod |-> mod, how |-> how, a |-> a] : a \in Sub(d - 1, IF how = "thunk" THEN ks ELSE 0, how = "data", s)}
                                 : mod \in Pick(Mods), how \in Pick({"thunk", "data", "with"})}
    [] k \in {"output", "cmsg"} -> {[k |-> k, a |-> a] : a \in Sub(d - 1, 0, TRUE, s)}
    [] OTHER -> {}

RECURSIVE Text(_), Texts(_, _)
K(i) == "k" \o Str(i)
Invoke(how, f, as) == CASE how = "s" -> Call(f, as)
                        [] how = "call" -> Call("%c 'call " \o f, as)
                        [] how = "apply" -> "(%c 'apply " \o f \o " " \o Call("list", as) \o ")"
                        [] OTHER -> "(apply " \o f \o " " \o Call("list", as) \o ")"
Texts(as, i) == [j \in 1..Len(as) |-> Text(as[j])]
Text(f) ==
  CASE f.k = "lit" -> f.l[1]
    [] f.k = "ref" -> f.n
    [] f.k = "look" -> "(%c '" \o f.how \o " '" \o f.n \o ")"
    [] f.k = "mlook" -> "(%c 'module-lookup '" \o ModName(f.mod) \o " '" \o f.n \o ")"
    [] f.k = "cur" -> "(%c 'current? '" \o ModName(f.mod) \o ")"
    [] f.k = "err" -> "(car '())"
    [] f.k = "unbound" -> "nowhere"
    [] f.k = "disp" -> "(begin (display " \o f.l[1] \o ") 'd)"
    [] f.k = "thr" -> "(throw '" \o f.key \o " " \o f.t[1] \o ")"
    [] f.k = "cthr" -> "(%c 'throw '" \o f.key \o " " \o f.t[1] \o ")"
    [] f.k = "set" -> "(begin (set! " \o f.n \o " " \o Text(f.a) \o ") " \o f.n \o ")"
    [] f.k = "def" -> "(define " \o f.n \o " " \o Text(f.a) \o ")"
    [] f.k = "cdef" -> "(%c 'define '" \o f.n \o " " \o Text(f.a) \o ")"
    [] f.k = "cmdef" -> "(%c 'module-define '" \o ModName(f.mod) \o " '" \o f.n \o " " \o Text(f.a) \o ")"
    [] f.k = "list" -> "(list " \o Text(f.a) \o " " \o Text(f.b) \o ")"
    [] f.k = "note" -> "(%c 'note " \o Text(f.a) \o ")"
    [] f.k = "wind" -> "(dynamic-wind (lambda () (%c 'note '<)) (lambda () " \o Text(f.a) \o ") (lambda () (%c 'note '>)))"
    [] f.k = "thunk" -> "(%c 'call (lambda () " \o Text(f.a) \o "))"
    [] f.k = "scatch" -> "(catch " \o f.key \o " (lambda () " \o Text(f.a) \o ") (lambda l (cons 'c l)))"
    [] f.k = "ccatch" -> "(%c 'catch " \o f.key \o " (lambda () " \o Text(f.a) \o "))"
    [] f.k = "esc" -> "(call/cc (lambda (" \o K(f.i) \o ") " \o Text(f.a) \o "))"
    [] f.k = "out" -> Invoke(f.how, K(f.i), <<Text(f.a)>>)
    [] f.k \in {"pcall", "gcall"} -> Invoke(f.how, f.f, Texts(f.as, 1))
    [] f.k = "ceval" -> "(%c '" \o f.how \o " '" \o Text(f.a) \o ")"
    [] f.k = "cevs" -> "(%c '" \o f.how \o " '" \o Text(f.a) \o " '" \o Text(f.b) \o ")"
    [] f.k = "cin" -> "(%c '" \o (IF f.how = "with" THEN "module-with '" ELSE "in '") \o ModName(f.mod) \o
                      (IF f.how = "thunk" THEN " (lambda () " \o Text(f.a) \o "))" ELSE " '" \o Text(f.a) \o ")")
    [] f.k = "cmsg" -> "(%c 'message '" \o Text(f.a) \o ")"
    [] OTHER -> "(%c 'output '" \o Text(f.a) \o ")"

\* ------------------------------------------------------------- what they do
\* the state afterwards, how it ends ("val", "err", "jump"), the value; of an error the key, the arguments and
\* the message among them; of a jump which continuation
Val(s, v) == [s |-> s, r |-> "val", v |-> v, key |-> "", args |-> "", msg |-> "", i |-> 0]
Fail(s, key, args, msg) == [s |-> s, r |-> "err", v |-> "", key |-> key, args |-> args, msg |-> msg, i |-> 0]
Error(s) == Fail(s, "error", "?", "?")
Caught(head, a) == "(" \o head \o " " \o a.key \o (IF a.args = "" THEN "" ELSE " " \o a.args) \o ")"
Failed(a) == "(failed " \o a.key \o " " \o a.msg \o ")"
Matches(tag, key) == tag = "#t" \/ tag = "'" \o key
\* where pscm_eval catches it
Api(a) == IF a.r = "err" THEN Val(IF a.s.h THEN Note(a.s, "!" \o a.key) ELSE a.s, Failed(a)) ELSE a
LitOf(v) == {l \in Lits : l[2] = v}
\* a value as an expression, of those that can be
Evaluated(s, v) == LET l == CHOOSE l \in LitOf(v) : TRUE
                   IN CASE l[3] = "self" -> Val(s, v)
                        [] l[3] = "err" -> Error(s)
                        [] l[3] = "k1" -> Fail(s, "k1", "", "#f")
                        [] OTHER -> Val(s, Value(s, s.cur, l[3]))
\* calls with the values of the arguments
Applied(f, vs, s, mod) ==
  CASE f = "p" -> IF Len(vs) # 1 THEN Error(s) ELSE LET t == [s EXCEPT !.v["root"]["x"] = vs[1]] IN Val(t, ListText(<<"p", vs[1], t.v["root"]["y"]>>))
    [] f = "q" -> IF Len(vs) # 2 THEN Error(s) ELSE Val(s, ListText(<<"q", vs[1], vs[2]>>))
    [] f = "r" -> Val(s, ListText(<<"r">> \o vs))
    [] f = "list" -> Val(s, ListText(vs))
    [] OTHER -> LET r == Fun(s, mod)
                    wrong == Fail(s, "wrong-number-of-args", "?", "?")
                IN CASE r.k = "fixed" -> IF Len(vs) # r.n THEN wrong ELSE Val(s, ListText(<<Str(r.which), Str(r.n)>> \o vs))
                     [] r.k = "any" -> Val(s, ListText(<<Str(r.which), "9">> \o vs))
                     [] Len(vs) # 1 -> wrong
                     [] r.k = "thrower" -> Fail(s, "thrown", vs[1] \o " \"by a function\"", "?")
                     [] r.k = "caller" -> LET t == [s EXCEPT !.v["root"]["x"] = vs[1]] IN Val(t, ListText(<<"called", "p", vs[1], t.v["root"]["y"]>>))
                     [] OTHER -> LET a == Api(Evaluated(s, vs[1])) IN [a EXCEPT !.v = ListText(<<"evaluated", @>>)]
RECURSIVE Ev(_, _, _), EvArgs(_, _, _, _, _)
\* mod: the module whose code it is
EvArgs(as, i, vs, s, mod) == IF i > Len(as) THEN [Val(s, "") EXCEPT !.v = vs]
                             ELSE LET a == Ev(as[i], s, mod) IN IF a.r # "val" THEN a ELSE EvArgs(as, i + 1, Append(vs, a.v), a.s, mod)
Ev(f, s, mod) ==
  CASE f.k = "lit" -> Val(s, f.l[2])
    [] f.k = "ref" -> Val(s, Value(s, mod, f.n))
    [] f.k = "look" -> Val(s, Value(s, s.cur, f.n))
    [] f.k = "mlook" -> Val(s, Value(s, f.mod, f.n))
    [] f.k = "cur" -> Val(s, BoolText(s.cur = f.mod))
    [] f.k \in {"err", "unbound"} -> Error(s)
    [] f.k = "disp" -> Val([s EXCEPT !.out = @ \o f.l[2]], "d")
    [] f.k \in {"thr", "cthr"} -> Fail(s, f.key, f.t[2], f.t[3])
    [] f.k = "set" -> LET a == Ev(f.a, s, mod) IN IF a.r # "val" THEN a ELSE [a EXCEPT !.s.v[Holder(a.s, mod, f.n)][f.n] = a.v]
    [] f.k = "def" -> LET a == Ev(f.a, s, mod) IN IF a.r # "val" THEN a ELSE [a EXCEPT !.s.v[a.s.cur][f.n] = a.v, !.v = "#none"]
    [] f.k = "cdef" -> LET a == Ev(f.a, s, mod) IN IF a.r # "val" THEN a ELSE [a EXCEPT !.s.v[a.s.cur][f.n] = a.v]
    [] f.k = "cmdef" -> LET a == Ev(f.a, s, mod) IN IF a.r # "val" THEN a ELSE [a EXCEPT !.s.v[f.mod][f.n] = a.v]
    [] f.k = "list" -> LET a == EvArgs(<<f.a, f.b>>, 1, <<>>, s, mod) IN IF a.r # "val" THEN a ELSE [a EXCEPT !.v = ListText(a.v)]
    [] f.k = "note" -> LET a == Ev(f.a, s, mod) IN IF a.r # "val" THEN a ELSE [a EXCEPT !.s = Note(a.s, a.v)]
    [] f.k = "wind" -> LET a == Ev(f.a, Note(s, "<"), mod) IN [a EXCEPT !.s = Note(a.s, ">")]
    [] f.k = "thunk" -> Ev(f.a, s, mod)
    [] f.k \in {"scatch", "ccatch"} -> LET a == Ev(f.a, s, mod) IN IF a.r = "err" /\ Matches(f.key, a.key) THEN Val(a.s, Caught(IF f.k = "scatch" THEN "c" ELSE "caught", a)) ELSE a
    [] f.k = "esc" -> LET a == Ev(f.a, s, mod) IN IF a.r = "jump" /\ a.i = f.i THEN Val(a.s, a.v) ELSE a
    [] f.k = "out" -> LET a == Ev(f.a, s, mod) IN IF a.r # "val" THEN a ELSE [a EXCEPT !.r = "jump", !.i = f.i]
    [] f.k \in {"pcall", "gcall"} -> IF f.k = "gcall" /\ Fun(s, mod).k = "none" THEN Error(s)
                                     ELSE LET a == EvArgs(f.as, 1, <<>>, s, mod) IN IF a.r # "val" THEN a ELSE Applied(f.f, a.v, a.s, mod)
    [] f.k = "ceval" -> Api(Ev(f.a, s, s.cur))
    [] f.k = "cevs" -> IF f.how = "eval-file" THEN LET a == Api(Ev(f.a, s, s.cur)) IN Api(Ev(f.b, a.s, a.s.cur))
                       ELSE LET a == Ev(f.a, s, s.cur) IN IF a.r = "err" THEN a ELSE Ev(f.b, a.s, a.s.cur)
    [] f.k = "cin" -> LET in == [s EXCEPT !.cur = f.mod]
                          a == Ev(f.a, in, IF f.how = "thunk" THEN mod ELSE f.mod)
                          b == [a EXCEPT !.s.cur = s.cur]
                      IN IF f.how = "with" /\ a.r = "val" THEN [b EXCEPT !.v = "#none"] ELSE b
    \* an error ends in a message
    [] f.k = "cmsg" -> LET a == Ev(f.a, s, s.cur) IN IF a.r = "err" THEN Val(a.s, "(#f #t)") ELSE [a EXCEPT !.v = "(" \o @ \o " #f)"]
    [] OTHER -> LET a == Ev(f.a, [s EXCEPT !.out = ""], s.cur)
                    v == IF a.r = "err" THEN Caught("caught", a) ELSE a.v
                IN Val([a.s EXCEPT !.out = s.out], "(" \o v \o " \"" \o a.s.out \o "\")")

\* ---------------------------------------------------- what the C program does
\* an expression that is a call of the interface, as the C program does it
Direct(f) == LET lits(as) == [j \in 1..Len(as) |-> as[j].l[2]] IN
  CASE f.k = "look" -> "(%C " \o f.how \o " " \o f.n \o ")"
    [] f.k = "mlook" -> "(%C module-lookup " \o ModName(f.mod) \o " " \o f.n \o ")"
    [] f.k = "cur" -> "(%C current? " \o ModName(f.mod) \o ")"
    [] f.k = "cthr" -> "(%C throw " \o f.key \o (IF f.t[2] = "" THEN "" ELSE " " \o f.t[2]) \o ")"
    [] f.k = "cdef" -> "(%C define " \o f.n \o " " \o f.a.l[2] \o ")"
    [] f.k = "cmdef" -> "(%C module-define " \o ModName(f.mod) \o " " \o f.n \o " " \o f.a.l[2] \o ")"
    [] f.k = "note" -> "(%C note " \o f.a.l[2] \o ")"
    [] f.k \in {"pcall", "gcall"} -> IF f.how \in {"s", "call"} THEN Call("%C call " \o f.f, lits(f.as)) ELSE "(%C apply " \o f.f \o " " \o ListText(lits(f.as)) \o ")"
    [] f.k = "ccatch" -> "(%C catch " \o (IF f.key = "#t" THEN "#t" ELSE IF f.key = "'k1" THEN "k1" ELSE "error") \o " " \o Text(f.a) \o ")"
    [] f.k = "ceval" -> "(%C " \o f.how \o " " \o Text(f.a) \o ")"
    [] f.k = "cevs" -> "(%C " \o f.how \o " " \o Text(f.a) \o " " \o Text(f.b) \o ")"
    [] f.k = "cin" -> "(%C " \o (IF f.how = "with" THEN "module-with " ELSE "in ") \o ModName(f.mod) \o " " \o Text(f.a) \o ")"
    [] f.k = "cmsg" -> "(%C message " \o Text(f.a) \o ")"
    [] OTHER -> "(%C output " \o Text(f.a) \o ")"
\* the expressions of that kind whose arguments are literals or code
DirectOf(k, s) == CASE k \in {"cdef", "note"} \cup {"cmdef"} -> LET vs == {[k |-> "lit", l |-> l] : l \in Pick(Lits)} IN
                         IF k = "note" THEN {[k |-> k, a |-> a] : a \in vs}
                         ELSE IF k = "cdef" THEN {[k |-> k, n |-> n, a |-> a] : n \in Of(Names, {"x"}), a \in vs}
                         ELSE {[k |-> k, mod |-> mod, n |-> n, a |-> a] : mod \in Pick(Mods), n \in Of(Names, {"x"}), a \in vs}
                    [] k \in {"pcall", "gcall"} -> Gen(k, 0, 0, s)
                    [] k = "ccatch" -> {[k |-> k, key |-> key, a |-> a] : key \in Pick({"'k1", "'error", "#t"}), a \in Sub(Depth - 1, 0, TRUE, s)}
                    [] k = "cin" -> {[k |-> k, mod |-> mod, how |-> how, a |-> a] : mod \in Pick(Mods), how \in Pick({"data", "with"}), a \in Sub(Depth - 1, 0, TRUE, s)}
                    [] OTHER -> Gen(k, Depth, 0, s)
\* the code that the C program has evaluated is that of the current module
DirectEv(f, s) == IF f.k = "ccatch" THEN LET a == Ev(f.a, s, s.cur) IN IF a.r = "err" /\ Matches(f.key, a.key) THEN Val(a.s, Caught("caught", a)) ELSE a
                  ELSE Ev(f, s, s.cur)
Shown(a) == LET v == IF a.r = "err" THEN Caught("error", a) ELSE a.v IN IF a.s.log = "" THEN v ELSE v \o " |" \o a.s.log
Take(text, a) == /\ st' = [a.s EXCEPT !.log = "", !.out = ""]
                 /\ hist' = hist \o <<<<"!C" \o text, Shown(a)>>>>

ATop(z) == IF Sim THEN {Tops[RandomElement(DOMAIN Tops)]} ELSE Range(Tops)
DoDirect(k) == \E f \in Pick(DirectOf(k, st)) : Take(Direct(f), DirectEv(f, st))
\* registering a function in the current module
DoRegister(k) ==
  \/ k = "gsubr" /\ \E kind \in Pick({"fixed", "any"}), which \in Of({0, 1}, {1}), n \in Pick(0..3), o \in Pick({<<1, 0>>, <<0, 1>>, <<2, 1>>}) :
        LET r == IF kind = "fixed" THEN [k |-> "fixed", n |-> n, which |-> which] ELSE [k |-> "any", which |-> which]
        IN Take("(%C gsubr g " \o Str(n) \o " " \o (IF kind = "fixed" THEN "0 0" ELSE Str(o[1]) \o " " \o Str(o[2])) \o " " \o Str(which) \o ")", Val([st EXCEPT !.g[st.cur] = r], "#none"))
  \/ k = "worker" /\ \E w \in Pick({"thrower", "caller", "evaluator"}) :
        Take("(%C worker g " \o w \o ")", Val([st EXCEPT !.g[st.cur] = [k |-> w]], "#none"))
DoOther(k) ==
  \/ k = "enter" /\ \E mod \in Pick(Mods) : Take("(%C enter " \o ModName(mod) \o ")", Val([st EXCEPT !.cur = mod], "#none"))
  \/ k = "handler" /\ Take("(%C handler " \o BoolText(~st.h) \o ")", Val([st EXCEPT !.h = ~@], "#none"))
  \/ k = "module" /\ \E n \in Of(Names, {"x"}), mod \in Pick(Mods), l \in Pick(Lits) :
        Take("(%C module " \o ModName(mod) \o " " \o n \o " " \o l[2] \o ")", Val([st EXCEPT !.v[mod][n] = l[2]], "#none"))
  \/ k = "parse" /\ \E t \in Pick({<<"(a . (b c))", "(a b c)">>, <<"'x", "(quote x)">>, <<" 5 ", "5">>, <<"; c\n#(1 u)", "#(1 u)">>, <<"(1 2", "">>, <<")", "">>, <<"(a . b c)", "">>}) :
        LET a == IF t[2] = "" THEN Api(Error(st)) ELSE Val(st, t[2]) IN Take("(%C parse \"" \o t[1] \o "\")", a)
  \/ k = "text" /\ \E t \in Pick({"", "a", "a b", "x; (", "it's"}), op \in Pick({"text", "name"}) :
        Take("(%C " \o op \o " \"" \o t \o "\")", Val(st, "\"" \o t \o "\""))
  \* a throw that nothing catches ends the program with status 1; what quits ends it where a message would be written
  \/ k = "end" /\ \E how \in Pick({"uncaught", "message"}) : \E e \in Pick({<<"k1 " \o t[2], IF how = "uncaught" THEN "1" ELSE "99">> : t \in Throws} \cup
                                                                     {<<"quit " \o n[1], IF how = "uncaught" THEN "1" ELSE n[2]>> : n \in {<<"", "0">>, <<"0", "0">>, <<"7", "7">>, <<"255 x", "255">>, <<"x", "0">>}}) :
        Take("(%C end " \o how \o " " \o e[1] \o ")", Val(st, e[2]))
Next == /\ Len(hist) >= 0
        /\ \E k \in ATop(Len(hist)) : DoDirect(k) \/ DoRegister(k) \/ DoOther(k)

View == st
Bound == Len(hist) < MaxLen

\* ---------------------------------------------------------------- properties
\* what C code defines or changes is what Scheme code sees, and the other way round: every way to read a name agrees
Agree == \A n \in Names, mod \in Mods : LET here == [st EXCEPT !.cur = mod]
                                            ref == [k |-> "ref", n |-> n]
                                            via == {Ev([k |-> "look", n |-> n, how |-> "lookup"], here, mod), Ev([k |-> "mlook", n |-> n, mod |-> mod], here, mod),
                                                    Ev([k |-> "ceval", how |-> "eval", a |-> ref], here, "root"), Ev([k |-> "thunk", a |-> ref], here, mod)}
                                        IN \A a \in via : a.r = "val" /\ a.v = Ev(ref, here, mod).v /\ a.s = here
\* the two ways to call, and a call whose arguments look like code does not evaluate them
Calls == \A l \in Lits, mod \in Mods : LET e == [k |-> "lit", l |-> l] IN
            /\ Ev([k |-> "pcall", f |-> "list", how |-> "call", as |-> <<e, e>>], st, mod).v = ListText(<<l[2], l[2]>>)
            /\ Ev([k |-> "pcall", f |-> "p", how |-> "call", as |-> <<e>>], st, mod) = Ev([k |-> "pcall", f |-> "p", how |-> "s", as |-> <<e>>], st, mod)
Inv == st.log = "" /\ st.v["root"]["x"] # "" /\ st.v["root"]["y"] # "" /\ Agree /\ Calls
\* only entering a module changes the current one
Stays == [][st'.cur # st.cur => LET op == hist'[Len(hist')][1] IN \E mod \in Mods : op = "!C(%C enter " \o ModName(mod) \o ")"]_vars
=============================================================================
