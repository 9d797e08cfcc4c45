------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The evaluator of PikachuHy/pscm as an abstract machine.                 *)
(*                                                                         *)
(* A state holds what the language's semantics needs and nothing else: the *)
(* expression being evaluated or the value being returned, the environment,*)
(* the continuation (a stack of frames), the dynamic extents entered       *)
(* (`w`), the catches in force (`h`) and the heap.  One step of the        *)
(* machine is one transition of the specification.                         *)
(*                                                                         *)
(* The machine interprets programs given as data (constant Programs) and   *)
(* is bound to the implementation by trace validation: each program comes  *)
(* with the traces (sequences of emitted values, as text) recorded from    *)
(* the real interpreter, and every emission of the machine must be the     *)
(* next event of every trace.                                              *)
(*                                                                         *)
(* Source data and expressions are trees:                                  *)
(*   <<"n",5>> <<"s","x">> <<"b",TRUE>> <<"str","x">> <<"c",97>>           *)
(*   <<"l",<<..>>>> proper list   <<"d",<<..>>,tail>> improper list        *)
(*   <<"v",<<..>>>> vector        <<"q",value>> a value put in by the      *)
(*   machine itself.                                                       *)
(* Values: the atoms above, and <<"nil">> <<"none">> <<"eof">>             *)
(*   <<"p",loc>> pair, <<"vec",loc>> vector, <<"h",loc>> hash table,       *)
(*   <<"clo",loc>> <<"prim",name>> <<"k",loc>> <<"mac",loc>>               *)
(*   <<"prom",loc>> <<"vals",<<..>>>> <<"opq">> (a value about which       *)
(*   nothing is claimed) <<"undef">> (a letrec variable not yet set).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------------ basics
Nil  == <<"nil">>
None == <<"none">>
Opq  == <<"opq">>
Undef == <<"undef">>
True  == <<"b", TRUE>>
False == <<"b", FALSE>>
Num(i) == <<"n", i>>
Sym(s) == <<"s", s>>
Bool(b) == <<"b", b>>
IsFalse(v) == v = False
Tag(v) == v[1]

MinOf(a, b) == IF a < b THEN a ELSE b
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE RangeSet(_, _)
RangeSet(s, i) == IF i > Len(s) THEN {} ELSE {s[i]} \cup RangeSet(s, i + 1)

\* ------------------------------------------------------------ state fields
\*  mode  "e" evaluate x in env | "v" return value x | "a" apply x=<<f,args>>
\*        "jump" leave/enter extents towards j | "done" | "unspec" (reached
\*        something the specification does not claim) | "bad" (a trace differs)
\*  k     continuation: <<>> or <<frame, rest>>
\*  w     dynamic extents entered: locs of <<"wind",before,after>>, outermost first
\*  h     catches in force: [tag, hd, k, w], outermost first
\*  ji    0, or the number of the jump whose guards are being run
\*  pc    index of the toplevel form being evaluated
\*  ne    number of emissions so far
New(m, obj) == Append(m.heap, obj)
NextLoc(m) == Len(m.heap) + 1

Val(m, v) == [m EXCEPT !.mode = "v", !.x = v]
Unspec(m, why) == [m EXCEPT !.mode = "unspec", !.x = why]
Ev(m, e, env) == [m EXCEPT !.mode = "e", !.x = e, !.env = env]
EvK(m, e, env, fr) == [m EXCEPT !.mode = "e", !.x = e, !.env = env, !.k = <<fr, m.k>>]
Apply(m, f, args) == [m EXCEPT !.mode = "a", !.x = <<f, args>>]
ApplyK(m, f, args, fr) == [m EXCEPT !.mode = "a", !.x = <<f, args>>, !.k = <<fr, m.k>>]

\* ------------------------------------------------------------ data <-> trees
\* ToVal(heap, tree) = <<value, heap'>>: the data a quoted tree stands for
RECURSIVE ToVal(_, _), ListVal(_, _, _, _), VecVal(_, _, _, _)
ToVal(heap, t) ==
  CASE Tag(t) = "l" -> ListVal(heap, t[2], 1, Nil)
    [] Tag(t) = "d" -> LET tl == ToVal(heap, t[3]) IN ListVal(tl[2], t[2], 1, tl[1])
    [] Tag(t) = "v" -> VecVal(heap, t[2], 1, <<>>)
    [] Tag(t) = "q" -> <<t[2], heap>>
    [] OTHER -> <<t, heap>>
ListVal(heap, ts, i, tail) ==
  IF i > Len(ts) THEN <<tail, heap>>
  ELSE LET a == ToVal(heap, ts[i])
           d == ListVal(a[2], ts, i + 1, tail)
       IN <<<<"p", Len(d[2]) + 1>>, Append(d[2], <<"pair", a[1], d[1]>>)>>
VecVal(heap, ts, i, acc) ==
  IF i > Len(ts) THEN <<<<"vec", Len(heap) + 1>>, Append(heap, <<"vector", acc>>)>>
  ELSE LET a == ToVal(heap, ts[i]) IN VecVal(a[2], ts, i + 1, Append(acc, a[1]))

Atomic(v) == Tag(v) \in {"n", "s", "b", "str", "c"}

\* ToTree(heap, value): a value as an expression (for eval and macros)
RECURSIVE ToTree(_, _, _), ToTreeList(_, _, _, _)
ToTree(heap, v, fuel) ==
  IF fuel = 0 THEN <<"q", Opq>>
  ELSE CASE Atomic(v) -> v
         [] Tag(v) = "nil" -> <<"l", <<>>>>
         [] Tag(v) = "p" -> ToTreeList(heap, v, <<>>, fuel - 1)
         [] Tag(v) = "vec" -> <<"v", [i \in 1..Len(heap[v[2]][2]) |-> ToTree(heap, heap[v[2]][2][i], fuel - 1)]>>
         [] OTHER -> <<"q", v>>
ToTreeList(heap, v, acc, fuel) ==
  IF fuel = 0 THEN <<"q", Opq>>
  ELSE CASE Tag(v) = "nil" -> <<"l", acc>>
         [] Tag(v) = "p" -> ToTreeList(heap, heap[v[2]][3], Append(acc, ToTree(heap, heap[v[2]][2], fuel - 1)), fuel - 1)
         [] OTHER -> <<"d", acc, ToTree(heap, v, fuel - 1)>>

\* elements of a proper list value; <<"improper">> and <<"circular">> otherwise
RECURSIVE ListElems(_, _, _, _)
ListElems(heap, v, acc, fuel) ==
  CASE fuel = 0 -> [ok |-> FALSE, es |-> acc, why |-> "circular"]
    [] Tag(v) = "nil" -> [ok |-> TRUE, es |-> acc, why |-> ""]
    [] Tag(v) = "p" -> ListElems(heap, heap[v[2]][3], Append(acc, heap[v[2]][2]), fuel - 1)
    [] OTHER -> [ok |-> FALSE, es |-> acc, why |-> "improper"]
Elems(heap, v) == ListElems(heap, v, <<>>, 400)

RECURSIVE MkList(_, _, _, _)
\* <<value, heap'>>: a fresh list of the values vs[i..], ending in tail
MkList(heap, vs, i, tail) ==
  IF i > Len(vs) THEN <<tail, heap>>
  ELSE LET d == MkList(heap, vs, i + 1, tail)
       IN <<<<"p", Len(d[2]) + 1>>, Append(d[2], <<"pair", vs[i], d[1]>>)>>
ListOf(heap, vs) == MkList(heap, vs, 1, Nil)
ValList(m, vs) == LET r == ListOf(m.heap, vs) IN [m EXCEPT !.mode = "v", !.x = r[1], !.heap = r[2]]

\* ------------------------------------------------------------------ showing
\* text of a value, as the harness writes it; "?" in it: not claimed
RECURSIVE Show(_, _, _), ShowTail(_, _, _), ShowSeq(_, _, _, _)
Show(heap, v, fuel) ==
  IF fuel = 0 THEN "?"
  ELSE CASE Tag(v) = "n" -> ToString(v[2])
         [] Tag(v) = "s" -> v[2]
         [] Tag(v) = "b" -> IF v[2] THEN "#t" ELSE "#f"
         [] Tag(v) = "str" -> "\"" \o v[2] \o "\""
         [] Tag(v) = "c" -> "#\\" \o ToString(v[2])
         [] Tag(v) = "nil" -> "()"
         [] Tag(v) = "none" -> "#none"
         [] Tag(v) = "eof" -> "#eof"
         [] Tag(v) = "p" -> "(" \o Show(heap, heap[v[2]][2], fuel - 1) \o ShowTail(heap, heap[v[2]][3], fuel - 1)
         [] Tag(v) = "vec" -> "#(" \o ShowSeq(heap, heap[v[2]][2], 1, fuel - 1) \o ")"
         [] Tag(v) = "h" -> "#hash"
         [] Tag(v) \in {"clo", "prim", "k"} -> "#proc"
         [] Tag(v) = "mac" -> "#macro"
         [] Tag(v) = "prom" -> "#promise"
         [] Tag(v) = "vals" -> "#values(" \o ShowSeq(heap, v[2], 1, fuel - 1) \o ")"
         [] OTHER -> "?"
ShowTail(heap, v, fuel) ==
  IF fuel = 0 THEN "?"
  ELSE CASE Tag(v) = "nil" -> ")"
         [] Tag(v) = "p" -> " " \o Show(heap, heap[v[2]][2], fuel - 1) \o ShowTail(heap, heap[v[2]][3], fuel - 1)
         [] OTHER -> " . " \o Show(heap, v, fuel - 1) \o ")"
ShowSeq(heap, vs, i, fuel) ==
  IF i > Len(vs) THEN ""
  ELSE (IF i = 1 THEN "" ELSE " ") \o Show(heap, vs[i], fuel) \o ShowSeq(heap, vs, i + 1, fuel)

RECURSIVE Claimed(_, _, _)
\* whether nothing unclaimed can be reached from v (within the fuel)
Claimed(heap, v, fuel) ==
  IF fuel = 0 THEN FALSE
  ELSE CASE Tag(v) \in {"opq", "undef"} -> FALSE
         [] Tag(v) = "p" -> Claimed(heap, heap[v[2]][2], fuel - 1) /\ Claimed(heap, heap[v[2]][3], fuel - 1)
         [] Tag(v) = "vec" -> \A i \in 1..Len(heap[v[2]][2]) : Claimed(heap, heap[v[2]][2][i], fuel - 1)
         [] Tag(v) = "vals" -> \A i \in 1..Len(v[2]) : Claimed(heap, v[2][i], fuel - 1)
         [] OTHER -> TRUE

\* ----------------------------------------------------------------- equality
\* "t", "f" or "?" (not claimed: identity of strings)
Eqv(a, b) == IF Tag(a) = "opq" \/ Tag(b) = "opq" THEN "?"
             ELSE IF Tag(a) = "str" /\ Tag(b) = "str" THEN (IF a = b THEN "?" ELSE "f")
             ELSE IF Tag(a) = "vals" \/ Tag(b) = "vals" THEN "?"
             ELSE IF Tag(a) = "prim" /\ Tag(b) = "prim" /\ a = b THEN "t"
             ELSE IF a = b THEN "t" ELSE "f"
RECURSIVE Equal(_, _, _, _)
Equal(heap, a, b, fuel) ==
  IF fuel = 0 THEN "?"
  ELSE IF Tag(a) = "str" /\ Tag(b) = "str" THEN (IF a = b THEN "t" ELSE "f")
  ELSE IF Tag(a) = "p" /\ Tag(b) = "p" THEN
         IF a = b THEN "t"
         ELSE LET r == Equal(heap, heap[a[2]][2], heap[b[2]][2], fuel - 1)
              IN IF r = "t" THEN Equal(heap, heap[a[2]][3], heap[b[2]][3], fuel - 1) ELSE r
  ELSE IF Tag(a) = "vec" /\ Tag(b) = "vec" THEN
         IF a = b THEN "t"
         ELSE LET va == heap[a[2]][2]
                  vb == heap[b[2]][2]
              IN IF Len(va) # Len(vb) THEN "f"
                 ELSE LET rs == {Equal(heap, va[i], vb[i], fuel - 1) : i \in 1..Len(va)}
                      IN IF "?" \in rs THEN "?" ELSE IF "f" \in rs THEN "f" ELSE "t"
  ELSE Eqv(a, b)
EqualV(heap, a, b) == Equal(heap, a, b, 200)
ByKind(kind, heap, a, b) == IF kind = "equal" THEN EqualV(heap, a, b) ELSE Eqv(a, b)

\* ------------------------------------------------------------- environments
RECURSIVE FindEnv(_, _, _)
\* loc of the frame binding name, 0 if none does
FindEnv(heap, env, name) ==
  IF env = 0 THEN 0
  ELSE IF name \in DOMAIN heap[env][3] THEN env
  ELSE FindEnv(heap, heap[env][2], name)
Lookup(heap, env, name) ==
  LET e == FindEnv(heap, env, name) IN IF e = 0 THEN <<"unbound">> ELSE heap[e][3][name]
EmptyBindings == ("" :> None)
BindAll(names, vals) == [n \in RangeSet(names, 1) |-> vals[CHOOSE i \in 1..Len(names) : names[i] = n]] @@ EmptyBindings
SetIn(heap, env, name, v) ==
  [heap EXCEPT ![env] = <<"env", heap[env][2], (name :> v) @@ heap[env][3]>>]

GlobalEnv == 1

\* ------------------------------------------------------------------- errors
\* the first catch from the inside that takes the key
RECURSIVE FindCatch(_, _, _)
FindCatch(h, i, key) ==
  IF i = 0 THEN 0
  ELSE IF h[i].tag = True THEN i
  ELSE IF Tag(key) = "opq" THEN -1
  ELSE IF h[i].tag = key THEN i
  ELSE FindCatch(h, i - 1, key)

Jump(m, tw, fin) == [m EXCEPT !.mode = "jump", !.x = <<tw, fin>>]

StartJump(m, tw, fin) ==
  IF tw = m.w THEN Jump(m, tw, fin)
  ELSE Jump([m EXCEPT !.ji = <<m.jc + 1, m.ji>>, !.jc = m.jc + 1, !.h = <<>>], tw, fin)

Throw(m, key, args) ==
  LET i == FindCatch(m.h, Len(m.h), key)
  IN IF i = -1 THEN Unspec(m, "throw of an unclaimed key")
     ELSE IF i = 0 THEN
       IF m.ji # <<>> THEN Unspec(m, "throw out of a guard during a jump")
       ELSE StartJump(m, <<>>, <<"top">>)
     ELSE LET c == m.h[i]
          IN StartJump(m, c.w, <<"catch", c.hd, <<key>> \o args, c.k, SubSeq(m.h, 1, i - 1), m.ji>>)
Err(m) == Throw(m, Sym("error"), <<Opq>>)                  \* an error found by the evaluator
ArityErr(m) == Throw(m, Sym("wrong-number-of-args"), <<Opq>>)

\* Continue on the way to the extents tw, then do fin
DoJump(m) ==
  LET tw == m.x[1]
      fin == m.x[2]
  IN IF m.w = tw THEN
       CASE fin[1] = "catch" ->
              Apply([m EXCEPT !.k = fin[4], !.h = fin[5], !.ji = fin[6]], fin[2], fin[3])
         [] fin[1] = "k" ->
              Val([m EXCEPT !.k = fin[3], !.h = fin[4], !.ji = fin[5]], fin[2])
         [] OTHER -> [m EXCEPT !.mode = "v", !.x = None, !.k = <<>>, !.h = <<>>, !.ji = <<>>]
     ELSE IF ~IsPrefixOf(m.w, tw) THEN
       LET wd == m.heap[Last(m.w)]
       IN [m EXCEPT !.w = Front(m.w), !.mode = "a", !.x = <<wd[3], <<>>>>,
                    !.k = <<<<"jump", tw, fin>>, <<>>>>]
     ELSE
       LET nxt == tw[Len(m.w) + 1]
           wd == m.heap[nxt]
       IN [m EXCEPT !.mode = "a", !.x = <<wd[2], <<>>>>,
                    !.k = <<<<"jumpin", nxt, tw, fin>>, <<>>>>]

\* ------------------------------------------------------------- special forms
SpecialForms == {"define", "define-macro", "let", "let*", "letrec", "lambda", "set!", "quote",
  "quasiquote", "if", "and", "or", "delay", "cond", "case", "begin", "for-each", "do",
  "call-with-values", "dynamic-wind", "define-module", "use-modules", "export", "re-export",
  "define-public"}

S(x) == <<"s", x>>
L(es) == <<"l", es>>
QPrim(n) == <<"q", <<"prim", n>>>>
IsL(t) == Tag(t) = "l"
IsSym(t) == Tag(t) = "s"
HeadIs(t, name) == IsL(t) /\ Len(t[2]) >= 1 /\ t[2][1] = S(name)

\* parameters of a lambda: [ok, names, rest]  (rest = "" if none)
ParamNames(t) ==
  CASE Tag(t) = "s" -> [ok |-> TRUE, names |-> <<>>, rest |-> t[2]]
    [] Tag(t) = "l" -> [ok |-> \A i \in 1..Len(t[2]) : IsSym(t[2][i]),
                        names |-> [i \in 1..Len(t[2]) |-> t[2][i][2]], rest |-> ""]
    [] Tag(t) = "d" -> [ok |-> (\A i \in 1..Len(t[2]) : IsSym(t[2][i])) /\ IsSym(t[3]),
                        names |-> [i \in 1..Len(t[2]) |-> t[2][i][2]],
                        rest |-> IF IsSym(t[3]) THEN t[3][2] ELSE ""]
    [] OTHER -> [ok |-> FALSE, names |-> <<>>, rest |-> ""]

MkClosure(m, ps, body, env) ==
  LET p == ParamNames(ps)
  IN IF Len(body) = 0 \/ Tag(ps) \in {"n", "b", "str", "c"} THEN Err(m)
     ELSE IF ~p.ok THEN Unspec(m, "bad lambda")
     ELSE [m EXCEPT !.mode = "v", !.x = <<"clo", NextLoc(m)>>,
                    !.heap = New(m, <<"closure", p.names, p.rest, body, env>>)]

RECURSIVE Quasi(_, _)
\* the expression that builds what a quasiquoted tree stands for
RECURSIVE QuasiSeq(_, _, _, _)
Quasi(t, d) ==
  CASE HeadIs(t, "unquote") /\ Len(t[2]) = 2 ->
         IF d = 1 THEN t[2][2] ELSE L(<<QPrim("list"), L(<<S("quote"), S("unquote")>>), Quasi(t[2][2], d - 1)>>)
    [] HeadIs(t, "quasiquote") /\ Len(t[2]) = 2 ->
         L(<<QPrim("list"), L(<<S("quote"), S("quasiquote")>>), Quasi(t[2][2], d + 1)>>)
    [] Tag(t) = "l" /\ Len(t[2]) > 0 -> QuasiSeq(t[2], 1, L(<<S("quote"), L(<<>>)>>), d)
    [] Tag(t) = "d" -> QuasiSeq(t[2], 1, Quasi(t[3], d), d)
    [] Tag(t) = "v" -> L(<<QPrim("list->vector"), Quasi(L(t[2]), d)>>)
    [] OTHER -> L(<<S("quote"), t>>)
QuasiSeq(es, i, tail, d) ==
  IF i > Len(es) THEN tail
  ELSE IF HeadIs(es[i], "unquote-splicing") /\ Len(es[i][2]) = 2 /\ d = 1
       THEN L(<<QPrim("%splice"), es[i][2][2], QuasiSeq(es, i + 1, tail, d)>>)
  ELSE IF i > 1 /\ i = Len(es) - 1 /\ es[i] = S("unquote")    \* (a . ,b)
       THEN Quasi(L(<<es[i], es[i + 1]>>), d)
  ELSE IF HeadIs(es[i], "unquote-splicing")
       THEN L(<<QPrim("cons"), L(<<QPrim("list"), L(<<S("quote"), S("unquote-splicing")>>),
                                   Quasi(es[i][2][2], d - 1)>>), QuasiSeq(es, i + 1, tail, d)>>)
  ELSE L(<<QPrim("cons"), Quasi(es[i], d), QuasiSeq(es, i + 1, tail, d)>>)

\* bindings ((x e) ...) : [ok, bad, names, inits].  bad: something is missing or of
\* the wrong shape, an error; neither ok nor bad: something is too much, not claimed
NoBindings(bad) == [ok |-> FALSE, bad |-> bad, names |-> <<>>, inits |-> <<>>]
BindingBad(t) == ~(Tag(t) \in {"l", "d"}) \/ (IsL(t) /\ (Len(t[2]) < 2 \/ ~IsSym(t[2][1])))
BindingsBad(t) == IF ~IsL(t) THEN Tag(t) # "d" ELSE \E i \in 1..Len(t[2]) : BindingBad(t[2][i])
Bindings(t) ==
  IF ~IsL(t) THEN NoBindings(Tag(t) # "d")
  ELSE LET ok == \A i \in 1..Len(t[2]) : IsL(t[2][i]) /\ Len(t[2][i][2]) = 2 /\ IsSym(t[2][i][2][1])
       IN IF ok THEN [ok |-> TRUE, bad |-> FALSE, names |-> [i \in 1..Len(t[2]) |-> t[2][i][2][1][2]],
                      inits |-> [i \in 1..Len(t[2]) |-> t[2][i][2][2]]]
          ELSE NoBindings(BindingsBad(t))
Distinct(names) == Cardinality(RangeSet(names, 1)) = Len(names)

Seq0(m, es, env, empty) ==   \* evaluate es in order, the value of the last
  IF Len(es) = 0 THEN Val(m, empty)
  ELSE IF Len(es) = 1 THEN Ev(m, es[1], env)
  ELSE EvK(m, es[1], env, <<"seq", Tail(es), env>>)

\* clauses cs[i..] of a cond
RECURSIVE CondFrom(_, _, _, _)
CondFrom(m, cs, i, env) ==
  IF i > Len(cs) THEN Val(m, None)
  ELSE IF Tag(cs[i]) = "d" THEN Unspec(m, "bad cond")
  ELSE IF ~IsL(cs[i]) \/ Len(cs[i][2]) = 0 THEN Err(m)
  ELSE LET c == cs[i][2]
       IN IF c[1] = S("else") THEN (IF Len(c) = 1 THEN Err(m) ELSE Seq0(m, Tail(c), env, None))
          ELSE EvK(m, c[1], env, <<"cond", cs, i, env>>)

DoVars(t) ==
  IF ~IsL(t) THEN [ok |-> FALSE, bad |-> Tag(t) # "d"]
  ELSE LET ok == \A i \in 1..Len(t[2]) : IsL(t[2][i]) /\ Len(t[2][i][2]) \in {2, 3} /\ IsSym(t[2][i][2][1])
       IN IF ok THEN [ok |-> TRUE, bad |-> FALSE, names |-> [i \in 1..Len(t[2]) |-> t[2][i][2][1][2]],
                      inits |-> [i \in 1..Len(t[2]) |-> t[2][i][2][2]],
                      steps |-> [i \in 1..Len(t[2]) |->
                                   IF Len(t[2][i][2]) = 3 THEN t[2][i][2][3] ELSE t[2][i][2][1]]]
          ELSE [ok |-> FALSE, bad |-> BindingsBad(t)]

NewFrame(m, names, vals, parent) == New(m, <<"env", parent, BindAll(names, vals)>>)

SpecialForm(m, name, t, env) ==
  LET a == Tail(t[2])        \* operands
      n == Len(a)
  IN CASE name = "quote" ->
            IF n = 0 THEN Err(m) ELSE IF n # 1 THEN Unspec(m, "quote")
            ELSE LET r == ToVal(m.heap, a[1]) IN [m EXCEPT !.mode = "v", !.x = r[1], !.heap = r[2]]
       [] name = "if" ->
            IF n < 2 THEN Err(m) ELSE IF n > 3 THEN Unspec(m, "if")
            ELSE EvK(m, a[1], env, <<"if", a[2], IF n = 3 THEN a[3] ELSE <<"q", None>>, env>>)
       [] name = "lambda" -> IF n < 2 THEN Err(m) ELSE MkClosure(m, a[1], Tail(a), env)
       [] name = "define" ->
            IF n = 0 \/ (n = 1 /\ IsSym(a[1])) THEN Err(m)
            ELSE IF IsSym(a[1]) THEN
              IF a[1][2] \in SpecialForms \/ n # 2 THEN Unspec(m, "define") ELSE
              EvK(m, a[2], env, <<"def", a[1][2], env>>)
            ELSE IF IsL(a[1]) /\ Len(a[1][2]) > 0 /\ IsSym(a[1][2][1]) THEN
              EvK(m, L(<<S("lambda"), L(Tail(a[1][2]))>> \o Tail(a)), env, <<"def", a[1][2][1][2], env>>)
            ELSE IF Tag(a[1]) = "d" /\ IsSym(a[1][2][1]) THEN
              EvK(m, L(<<S("lambda"), IF Len(a[1][2]) = 1 THEN a[1][3] ELSE <<"d", Tail(a[1][2]), a[1][3]>> >> \o Tail(a)),
                  env, <<"def", a[1][2][1][2], env>>)
            ELSE IF IsL(a[1]) /\ Len(a[1][2]) > 0 /\ IsL(a[1][2][1]) THEN     \* curried
              Ev(m, L(<<S("define"), a[1][2][1], L(<<S("lambda"), L(Tail(a[1][2]))>> \o Tail(a))>>), env)
            ELSE IF Tag(a[1]) \in {"n", "b", "str", "c"} THEN Err(m)
            ELSE Unspec(m, "define")
       [] name = "set!" ->
            IF n < 2 \/ ~IsSym(a[1]) THEN Err(m) ELSE IF n # 2 THEN Unspec(m, "set!") ELSE EvK(m, a[2], env, <<"set", a[1][2], env>>)
       [] name = "begin" -> Seq0(m, a, env, False)
       [] name = "and" -> IF n = 0 THEN Val(m, True) ELSE IF n = 1 THEN Ev(m, a[1], env)
                          ELSE EvK(m, a[1], env, <<"and", Tail(a), env>>)
       [] name = "or" -> IF n = 0 THEN Val(m, False) ELSE IF n = 1 THEN Ev(m, a[1], env)
                         ELSE EvK(m, a[1], env, <<"or", Tail(a), env>>)
       [] name = "cond" -> IF n = 0 THEN Err(m) ELSE CondFrom(m, a, 1, env)
       [] name = "case" -> IF n = 0 THEN Err(m) ELSE EvK(m, a[1], env, <<"case", Tail(a), env>>)
       [] name = "let" ->
            IF n < 2 THEN Err(m)
            ELSE IF IsSym(a[1]) THEN
              LET b == Bindings(a[2])
              IN IF n < 3 \/ b.bad THEN Err(m)
                 ELSE IF ~b.ok \/ ~Distinct(b.names) THEN Unspec(m, "let")
                 ELSE IF Len(b.names) = 0 THEN
                   Ev([m EXCEPT !.heap = New(m, <<"env", env, (a[1][2] :> Undef)>>)],
                      L(<<S("begin"),
                          L(<<S("set!"), a[1], L(<<S("lambda"), L(<<>>)>> \o SubSeq(a, 3, n))>>),
                          L(<<a[1]>>)>>), NextLoc(m))
                 ELSE EvK(m, b.inits[1], env, <<"nlet", a[1][2], b.names, <<>>, Tail(b.inits), SubSeq(a, 3, n), env>>)
            ELSE LET b == Bindings(a[1])
                 IN IF b.bad THEN Err(m)
                    ELSE IF ~b.ok \/ ~Distinct(b.names) THEN Unspec(m, "let")
                    ELSE IF Len(b.names) = 0 THEN
                      Seq0([m EXCEPT !.heap = New(m, <<"env", env, EmptyBindings>>)], Tail(a), NextLoc(m), False)
                    ELSE EvK(m, b.inits[1], env, <<"let", b.names, <<>>, Tail(b.inits), Tail(a), env>>)
       [] name = "let*" ->
            IF n < 2 \/ ~(Tag(a[1]) \in {"l", "d"}) THEN Err(m)
            ELSE IF Tag(a[1]) = "d" THEN Unspec(m, "let*")
            ELSE LET nb == Len(a[1][2])
                 IN IF nb = 0 THEN Ev(m, L(<<S("let"), L(<<>>)>> \o Tail(a)), env)
                    ELSE IF nb = 1 THEN Ev(m, L(<<S("let"), a[1]>> \o Tail(a)), env)
                    ELSE Ev(m, L(<<S("let"), L(<<a[1][2][1]>>), L(<<S("let*"), L(Tail(a[1][2]))>> \o Tail(a))>>), env)
       [] name = "letrec" ->
            LET b == IF n < 2 THEN NoBindings(TRUE) ELSE Bindings(a[1])
            IN IF b.bad THEN Err(m)
               ELSE IF ~b.ok THEN Unspec(m, "letrec")
               ELSE IF ~Distinct(b.names) THEN Unspec(m, "letrec")
               ELSE LET e == NextLoc(m)
                    IN Seq0([m EXCEPT !.heap = New(m, <<"env", env, [x \in RangeSet(b.names, 1) |-> Undef] @@ EmptyBindings>>)],
                            [i \in 1..Len(b.names) |-> L(<<S("set!"), S(b.names[i]), b.inits[i]>>)]
                              \o <<L(<<S("let"), L(<<>>)>> \o Tail(a))>>, e, None)
       [] name = "do" ->
            LET d == IF n < 2 THEN [ok |-> FALSE, bad |-> TRUE] ELSE DoVars(a[1])
            IN IF d.bad \/ ~(Tag(a[2]) \in {"l", "d"}) THEN Err(m)
               ELSE IF ~d.ok \/ ~IsL(a[2]) THEN Unspec(m, "do")
               ELSE IF Len(a[2][2]) = 0 THEN Err(m)
               ELSE IF ~Distinct(d.names) THEN Unspec(m, "do")
               ELSE IF Len(d.names) = 0 THEN
                 EvK([m EXCEPT !.heap = New(m, <<"env", env, EmptyBindings>>)], a[2][2][1], NextLoc(m),
                     <<"dotest", d, a[2][2], SubSeq(a, 3, n), NextLoc(m), env>>)
               ELSE EvK(m, d.inits[1], env, <<"dobind", d, <<>>, Tail(d.inits), a[2][2], SubSeq(a, 3, n), env, env>>)
       [] name = "delay" ->
            IF n = 0 THEN Err(m) ELSE IF n # 1 THEN Unspec(m, "delay")
            ELSE [m EXCEPT !.mode = "v", !.x = <<"prom", NextLoc(m)>>, !.heap = New(m, <<"promise", FALSE, a[1], env>>)]
       [] name = "quasiquote" -> IF n = 0 THEN Err(m) ELSE IF n # 1 THEN Unspec(m, "quasiquote") ELSE Ev(m, Quasi(a[1], 1), env)
       [] name = "define-macro" ->
            IF n = 0 \/ (n = 1 /\ IsSym(a[1])) THEN Err(m)
            ELSE IF n < 2 THEN Unspec(m, "define-macro")
            ELSE IF env # GlobalEnv THEN Unspec(m, "define-macro in a body")
            ELSE IF IsSym(a[1]) THEN EvK(m, a[2], env, <<"defmac", a[1][2]>>)
            ELSE IF IsL(a[1]) /\ Len(a[1][2]) > 0 THEN
              EvK(m, L(<<S("lambda"), L(Tail(a[1][2]))>> \o Tail(a)), env, <<"defmac", a[1][2][1][2]>>)
            ELSE IF Tag(a[1]) = "d" THEN
              EvK(m, L(<<S("lambda"), IF Len(a[1][2]) = 1 THEN a[1][3] ELSE <<"d", Tail(a[1][2]), a[1][3]>> >> \o Tail(a)),
                  env, <<"defmac", a[1][2][1][2]>>)
            ELSE Unspec(m, "define-macro")
       \* forms that evaluate their operands like a call
       [] name \in {"for-each", "dynamic-wind", "call-with-values"} ->
            IF n < 2 \/ (name = "dynamic-wind" /\ n # 3) THEN Err(m)
            ELSE IF name = "call-with-values" /\ n # 2 THEN Unspec(m, name)
            ELSE EvK(m, a[1], env, <<"args", <<<<"prim", name>>>>, Tail(a), env>>)
       [] OTHER -> Unspec(m, "form " \o name)

\* --------------------------------------------------------------- evaluation
EvalStep(m, Prims) ==
  LET t == m.x
      env == m.env
  IN CASE Tag(t) \in {"n", "b", "str", "c"} -> Val(m, t)
       [] Tag(t) = "q" -> IF Tag(t[2]) = "opq" THEN Unspec(m, "opaque expression") ELSE Val(m, t[2])
       [] Tag(t) = "s" ->
            LET v == Lookup(m.heap, env, t[2])
            IN IF Tag(v) = "unbound" THEN
                 IF t[2] \in Prims THEN Val(m, <<"prim", t[2]>>)
                 ELSE IF t[2] \in SpecialForms THEN Unspec(m, "special form as a variable")
                 ELSE Err(m)
               ELSE IF Tag(v) = "undef" THEN Unspec(m, "letrec variable before its value")
               ELSE Val(m, v)
       [] Tag(t) = "v" -> LET r == ToVal(m.heap, t) IN [m EXCEPT !.mode = "v", !.x = r[1], !.heap = r[2]]
       [] Tag(t) = "d" -> Unspec(m, "improper expression")
       [] Tag(t) = "l" /\ Len(t[2]) = 0 -> Val(m, Nil)
       [] OTHER ->
            LET hd == t[2][1]
                v == IF IsSym(hd) THEN Lookup(m.heap, env, hd[2]) ELSE <<"unbound">>
            IN IF Tag(v) = "mac" THEN
                 LET r == ListVal(m.heap, Tail(t[2]), 1, Nil)
                     es == Elems(r[2], r[1])
                 IN ApplyK([m EXCEPT !.heap = r[2]], m.heap[v[2]][2], es.es, <<"expand", env>>)
               ELSE IF IsSym(hd) /\ hd[2] \in SpecialForms THEN SpecialForm(m, hd[2], t, env)
               ELSE IF IsSym(hd) /\ hd[2] \in {"map", "map-in-order", "apply"} /\ Tag(v) # "unbound"
                 THEN Unspec(m, "a form's name bound")
               ELSE EvK(m, hd, env, <<"args", <<>>, Tail(t[2]), env>>)

\* ------------------------------------------------------------ pure primitives
\* A result: [r |-> "val", v, heap] | [r |-> "err"] | [r |-> "unspec"]
PV(v, heap) == [r |-> "val", v |-> v, heap |-> heap]
PErr == [r |-> "err"]
PUn == [r |-> "unspec"]
PTri(s, heap) == IF s = "t" THEN PV(True, heap) ELSE IF s = "f" THEN PV(False, heap) ELSE PUn

AllNum(as) == \A i \in 1..Len(as) : Tag(as[i]) = "n"
Small(x) == x > -1000000000 /\ x < 1000000000
RECURSIVE FoldNum(_, _, _, _)
\* op over as[i..]; -2000000001: out of the range the specification claims
Over == -2000000001
NumOp(op, x, y) ==
  IF x = Over \/ y = Over THEN Over
  ELSE CASE op = "+" -> IF Small(x) /\ Small(y) /\ Small(x + y) THEN x + y ELSE Over
         [] op = "-" -> IF Small(x) /\ Small(y) /\ Small(x - y) THEN x - y ELSE Over
         [] OTHER -> IF x > -30000 /\ x < 30000 /\ y > -30000 /\ y < 30000 THEN x * y ELSE Over
FoldNum(op, as, i, acc) == IF i > Len(as) THEN acc ELSE FoldNum(op, as, i + 1, NumOp(op, acc, as[i][2]))
PNum(x, heap) == IF x = Over THEN PUn ELSE PV(Num(x), heap)
Cmp(op, x, y) == CASE op = "=" -> x = y [] op = "<" -> x < y [] op = ">" -> x > y
                   [] op = "<=" -> x <= y [] OTHER -> x >= y
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE 1
\* TLA+ \div rounds towards minus infinity for a positive divisor only
FloorMod(x, y) == LET r == Abs(x) % Abs(y)       \* remainder of the magnitudes
                      s == Sign(x) * r           \* truncated remainder
                  IN IF s # 0 /\ Sign(s) # Sign(y) THEN s + y ELSE s

PairAt(heap, v) == heap[v[2]]

\* cell reached by following cdrs n times: <<"p",l>>, or what was found instead
RECURSIVE CdrN(_, _, _)
CdrN(heap, v, n) == IF n = 0 THEN v ELSE IF Tag(v) # "p" THEN <<"end">> ELSE CdrN(heap, heap[v[2]][3], n - 1)

RECURSIVE AppendLists(_, _, _)
\* append of lists as[i..]: copies all but the last
AppendLists(heap, as, i) ==
  IF i = Len(as) THEN [r |-> "val", v |-> as[i], heap |-> heap]
  ELSE LET e == Elems(heap, as[i])
       IN IF ~e.ok THEN [r |-> IF e.why = "circular" THEN "unspec" ELSE "err"]
          ELSE LET rest == AppendLists(heap, as, i + 1)
               IN IF rest.r # "val" THEN rest
                  ELSE LET l == MkList(rest.heap, e.es, 1, rest.v) IN PV(l[1], l[2])

RECURSIVE MemFrom(_, _, _, _, _)
MemFrom(kind, heap, x, l, fuel) ==
  IF fuel = 0 THEN PUn
  ELSE CASE Tag(l) = "nil" -> PV(False, heap)
         [] Tag(l) = "p" ->
              LET e == ByKind(kind, heap, x, heap[l[2]][2])
              IN IF e = "?" THEN PUn ELSE IF e = "t" THEN PV(l, heap)
                 ELSE MemFrom(kind, heap, x, heap[l[2]][3], fuel - 1)
         [] OTHER -> PUn
RECURSIVE AssFrom(_, _, _, _, _)
AssFrom(kind, heap, x, l, fuel) ==
  IF fuel = 0 THEN PUn
  ELSE CASE Tag(l) = "nil" -> PV(False, heap)
         [] Tag(l) = "p" ->
              LET c == heap[l[2]][2]
              IN IF Tag(c) # "p" THEN PUn
                 ELSE LET e == ByKind(kind, heap, x, heap[c[2]][2])
                      IN IF e = "?" THEN PUn ELSE IF e = "t" THEN PV(c, heap)
                         ELSE AssFrom(kind, heap, x, heap[l[2]][3], fuel - 1)
         [] OTHER -> PUn

\* hash table: <<"hash", <<pairloc, ...>>>>; the pairs are the handles
RECURSIVE HashFind(_, _, _, _, _)
HashFind(kind, heap, hs, k, i) ==     \* index of the handle, 0: none, -1: not claimed
  IF i > Len(hs) THEN 0
  ELSE LET e == ByKind(kind, heap, k, heap[hs[i]][2])
       IN IF e = "?" THEN -1 ELSE IF e = "t" THEN i ELSE HashFind(kind, heap, hs, k, i + 1)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
HashKind(name) == CASE SubSeq(name, 1, 5) = "hashq" -> "eq" [] SubSeq(name, 1, 5) = "hashv" -> "eq"
                    [] OTHER -> "equal"
HashOp(name) == IF SubSeq(name, 1, 5) \in {"hashq", "hashv"} THEN SubSeq(name, 7, Len(name)) ELSE SubSeq(name, 6, Len(name))

HashStep(name, as, heap) ==
  IF Tag(as[1]) # "h" THEN PErr
  ELSE LET hl == as[1][2]
           hs == heap[hl][2]
           i == HashFind(HashKind(name), heap, hs, as[2], 1)
           op == HashOp(name)
           add(v) == [Append(heap, <<"pair", as[2], v>>) EXCEPT ![hl] = <<"hash", Append(hs, Len(heap) + 1)>>]
       IN IF i = -1 \/ Tag(as[2]) = "opq" THEN PUn
          ELSE CASE op = "ref" -> PV(IF i = 0 THEN False ELSE heap[hs[i]][3], heap)
                 [] op = "get-handle" -> PV(IF i = 0 THEN False ELSE <<"p", hs[i]>>, heap)
                 [] op = "set!" -> PV(as[3], IF i = 0 THEN add(as[3])
                                             ELSE [heap EXCEPT ![hs[i]] = <<"pair", heap[hs[i]][2], as[3]>>])
                 [] op = "create-handle!" -> IF i = 0 THEN PV(<<"p", Len(heap) + 1>>, add(as[3])) ELSE PV(<<"p", hs[i]>>, heap)
                 [] op = "remove!" -> PV(Opq, IF i = 0 THEN heap ELSE [heap EXCEPT ![hl] = <<"hash", RemoveAt(hs, i)>>])
                 [] OTHER -> PUn

\* name -> <<fewest, most>> operands (most = 99: any number); "va": the error of a
\* wrong number is not the one of a procedure of fixed arity
HashNames == {p \o o : p \in {"hash-", "hashq-", "hashv-"}, o \in {"set!", "ref", "get-handle", "create-handle!", "remove!"}}
Fixed1 == {"car", "cdr", "cadr", "cddr", "caddr", "last-pair", "reverse", "length", "positive?", "negative?", "zero?",
  "odd?", "even?", "abs", "procedure?", "boolean?", "null?", "pair?", "list?", "number?", "string?", "symbol?",
  "vector?", "not", "vector-length", "vector->list", "list->vector", "char?", "char->integer", "integer->char",
  "symbol->string", "string->symbol", "string-length", "integer?", "force", "eval", "macroexpand-1", "macroexpand", "emit", "procedure-name"}
Fixed2 == {"cons", "list-head", "list-tail", "list-ref", "set-car!", "set-cdr!", "memq", "memv", "member", "assq", "assv",
  "assoc", "assoc-ref", "eq?", "eqv?", "equal?", "quotient", "modulo", "remainder", "vector-ref", "%splice",
  "hash-ref", "hashq-ref", "hashv-ref", "hash-get-handle", "hashq-get-handle", "hashv-get-handle",
  "hash-remove!", "hashq-remove!", "hashv-remove!"}
Fixed3 == {"vector-set!", "acons", "hash-set!", "hashq-set!", "hashv-set!", "hash-create-handle!", "hashq-create-handle!",
  "hashv-create-handle!", "hash-fold"}
Fixed0 == {"gc", "noop", "%gc"}
Variadic == {"+", "-", "*", "/", "=", "<", ">", "<=", ">=", "max", "min", "list", "append", "vector", "make-vector",
  "make-hash-table", "values", "apply", "map", "map-in-order", "call/cc", "call-with-current-continuation",
  "catch", "throw"}
AllPrims == (Fixed0 \cup Fixed1 \cup Fixed2 \cup Fixed3 \cup Variadic) \ {"%splice"}
PrimArity(name) == CASE name \in Fixed1 -> 1 [] name \in Fixed2 -> 2 [] name \in Fixed3 -> 3 [] name \in Fixed0 -> 0 [] OTHER -> -1

TypeTest(name, v) ==
  CASE name = "procedure?" -> Tag(v) \in {"clo", "prim", "k"}
    [] name = "boolean?" -> Tag(v) = "b"
    [] name = "null?" -> Tag(v) = "nil"
    [] name = "pair?" -> Tag(v) = "p"
    [] name \in {"number?", "integer?"} -> Tag(v) = "n"
    [] name = "string?" -> Tag(v) = "str"
    [] name = "symbol?" -> Tag(v) = "s"
    [] name = "vector?" -> Tag(v) = "vec"
    [] name = "char?" -> Tag(v) = "c"
    [] OTHER -> FALSE

Pure(name, as, heap) ==
  LET n == Len(as)
      a == as[1]
      b == as[2]
      numeric == {"+", "-", "*", "=", "<", ">", "<=", ">=", "max", "min", "/"}
  IN CASE name \in numeric ->
            IF \E i \in 1..n : Tag(as[i]) = "opq" THEN PUn
            ELSE IF ~AllNum(as) THEN
              (IF n = 2 \/ (name \in {"+", "*"}) THEN PErr ELSE PUn)
            ELSE CASE name = "+" -> PNum(FoldNum("+", as, 1, 0), heap)
                   [] name = "*" -> PNum(FoldNum("*", as, 1, 1), heap)
                   [] name = "-" -> IF n = 0 THEN PUn ELSE IF n = 1 THEN PNum(-a[2], heap)
                                    ELSE PNum(FoldNum("-", Tail(as), 1, a[2]), heap)
                   [] name = "/" -> IF n # 2 THEN PUn
                                    ELSE IF b[2] = 0 THEN PErr
                                    ELSE IF FloorMod(a[2], b[2]) = 0
                                         THEN PV(Num(Sign(a[2]) * Sign(b[2]) * (Abs(a[2]) \div Abs(b[2]))), heap)
                                         ELSE PUn
                   [] name \in {"max", "min"} ->
                        IF n = 0 THEN PUn
                        ELSE PV(Num(CHOOSE x \in {as[i][2] : i \in 1..n} :
                                      \A i \in 1..n : IF name = "max" THEN x >= as[i][2] ELSE x <= as[i][2]), heap)
                   [] OTHER -> IF n = 0 THEN PUn
                               ELSE PV(Bool(\A i \in 1..(n - 1) : Cmp(name, as[i][2], as[i + 1][2])), heap)
       [] name \in {"quotient", "modulo", "remainder"} ->
            IF Tag(a) = "opq" \/ Tag(b) = "opq" THEN PUn
            ELSE IF Tag(a) # "n" \/ Tag(b) # "n" THEN PErr
            ELSE IF b[2] = 0 THEN PErr
            ELSE PV(Num(CASE name = "quotient" -> Sign(a[2]) * Sign(b[2]) * (Abs(a[2]) \div Abs(b[2]))
                          [] name = "remainder" -> Sign(a[2]) * (Abs(a[2]) % Abs(b[2]))
                          [] OTHER -> FloorMod(a[2], b[2])), heap)
       [] name \in {"positive?", "negative?", "zero?", "odd?", "even?", "abs"} ->
            IF Tag(a) = "opq" THEN PUn
            ELSE IF Tag(a) # "n" THEN PErr
            ELSE IF name = "abs" THEN PV(Num(Abs(a[2])), heap)
            ELSE PV(Bool(CASE name = "positive?" -> a[2] > 0 [] name = "negative?" -> a[2] < 0
                           [] name = "zero?" -> a[2] = 0 [] name = "odd?" -> Abs(a[2]) % 2 = 1
                           [] OTHER -> Abs(a[2]) % 2 = 0), heap)
       [] name \in {"procedure?", "boolean?", "null?", "pair?", "number?", "integer?", "string?", "symbol?", "vector?", "char?"} ->
            IF Tag(a) \in {"opq", "vals"} THEN PUn ELSE PV(Bool(TypeTest(name, a)), heap)
       [] name = "list?" -> IF Tag(a) = "opq" THEN PUn ELSE PV(Bool(Elems(heap, a).ok), heap)
       [] name = "not" -> IF Tag(a) = "opq" THEN PUn ELSE PV(Bool(IsFalse(a)), heap)
       [] name = "cons" -> PV(<<"p", Len(heap) + 1>>, Append(heap, <<"pair", a, b>>))
       [] name \in {"car", "cdr", "cadr", "cddr", "caddr"} ->
            LET steps == CASE name \in {"car", "cdr"} -> 0 [] name \in {"cadr", "cddr"} -> 1 [] OTHER -> 2
                c == CdrN(heap, a, steps)
            IN IF Tag(a) = "opq" THEN PUn
               ELSE IF Tag(c) # "p" THEN PErr
               ELSE PV(IF name \in {"cdr", "cddr"} THEN heap[c[2]][3] ELSE heap[c[2]][2], heap)
       [] name \in {"set-car!", "set-cdr!"} ->
            IF Tag(a) # "p" THEN PErr
            ELSE PV(Opq, [heap EXCEPT ![a[2]] = IF name = "set-car!" THEN <<"pair", b, heap[a[2]][3]>>
                                                 ELSE <<"pair", heap[a[2]][2], b>>])
       [] name = "list" -> LET r == ListOf(heap, as) IN PV(r[1], r[2])
       [] name = "append" -> IF n = 0 THEN PV(Nil, heap) ELSE AppendLists(heap, as, 1)
       [] name = "%splice" ->
            LET e == Elems(heap, a)
            IN IF ~e.ok THEN PUn ELSE LET l == MkList(heap, e.es, 1, b) IN PV(l[1], l[2])
       [] name = "length" -> LET e == Elems(heap, a) IN IF e.ok THEN PV(Num(Len(e.es)), heap) ELSE IF e.why = "circular" THEN PUn ELSE PErr
       [] name = "reverse" ->
            LET e == Elems(heap, a)
            IN IF ~e.ok THEN (IF e.why = "circular" THEN PUn ELSE PErr)
               ELSE LET r == ListOf(heap, [i \in 1..Len(e.es) |-> e.es[Len(e.es) + 1 - i]]) IN PV(r[1], r[2])
       [] name = "list-ref" ->
            IF Tag(b) # "n" THEN PErr
            ELSE IF b[2] < 0 \/ b[2] > 300 THEN PUn
            ELSE LET c == CdrN(heap, a, b[2]) IN IF Tag(c) = "p" THEN PV(heap[c[2]][2], heap) ELSE PErr
       [] name = "list-tail" ->
            IF Tag(b) # "n" THEN PErr
            ELSE IF b[2] < 0 \/ b[2] > 300 THEN PUn
            ELSE LET c == CdrN(heap, a, b[2]) IN IF Tag(c) = "end" THEN PErr ELSE IF Tag(c) \in {"p", "nil"} THEN PV(c, heap) ELSE PUn
       [] name = "list-head" ->
            IF Tag(b) # "n" THEN PErr
            ELSE IF b[2] < 0 \/ b[2] > 300 THEN PUn
            ELSE IF b[2] > 0 /\ Tag(CdrN(heap, a, b[2] - 1)) # "p" THEN PErr
            ELSE LET r == ListOf(heap, [i \in 1..b[2] |-> heap[CdrN(heap, a, i - 1)[2]][2]]) IN PV(r[1], r[2])
       [] name = "last-pair" ->
            LET e == Elems(heap, a)
            IN IF Tag(a) # "p" \/ e.why = "circular" THEN PUn ELSE PV(CdrN(heap, a, Len(e.es) - 1), heap)
       [] name \in {"memq", "memv"} -> MemFrom("eq", heap, a, b, 300)
       [] name = "member" -> MemFrom("equal", heap, a, b, 300)
       [] name \in {"assq", "assv"} -> AssFrom("eq", heap, a, b, 300)
       [] name = "assoc" -> AssFrom("equal", heap, a, b, 300)
       [] name = "assoc-ref" ->
            LET r == AssFrom("equal", heap, b, a, 300)
            IN IF r.r # "val" THEN r ELSE IF IsFalse(r.v) THEN r ELSE PV(heap[r.v[2]][3], heap)
       [] name = "acons" -> PV(<<"p", Len(heap) + 2>>,
                               Append(Append(heap, <<"pair", a, b>>), <<"pair", <<"p", Len(heap) + 1>>, as[3]>>))
       [] name \in {"eq?", "eqv?"} -> PTri(Eqv(a, b), heap)
       [] name = "equal?" -> PTri(EqualV(heap, a, b), heap)
       [] name = "vector" -> PV(<<"vec", Len(heap) + 1>>, Append(heap, <<"vector", as>>))
       [] name = "make-vector" ->
            IF n # 2 THEN PUn ELSE IF Tag(a) # "n" THEN PErr
            ELSE IF a[2] < 0 \/ a[2] > 300 THEN PUn
            ELSE PV(<<"vec", Len(heap) + 1>>, Append(heap, <<"vector", [i \in 1..a[2] |-> b]>>))
       [] name = "vector-length" -> IF Tag(a) # "vec" THEN PErr ELSE PV(Num(Len(heap[a[2]][2])), heap)
       [] name \in {"vector-ref", "vector-set!"} ->
            IF Tag(a) # "vec" \/ Tag(b) # "n" THEN PErr
            ELSE IF b[2] < 0 \/ b[2] >= Len(heap[a[2]][2]) THEN PErr
            ELSE IF name = "vector-ref" THEN PV(heap[a[2]][2][b[2] + 1], heap)
            ELSE PV(Opq, [heap EXCEPT ![a[2]] = <<"vector", [heap[a[2]][2] EXCEPT ![b[2] + 1] = as[3]]>>])
       [] name = "vector->list" -> IF Tag(a) # "vec" THEN PErr ELSE LET r == ListOf(heap, heap[a[2]][2]) IN PV(r[1], r[2])
       [] name = "list->vector" ->
            LET e == Elems(heap, a)
            IN IF ~e.ok THEN (IF e.why = "circular" THEN PUn ELSE PErr)
               ELSE PV(<<"vec", Len(heap) + 1>>, Append(heap, <<"vector", e.es>>))
       [] name = "make-hash-table" -> IF n > 1 THEN PUn ELSE PV(<<"h", Len(heap) + 1>>, Append(heap, <<"hash", <<>>>>))
       [] name \in HashNames -> HashStep(name, as, heap)
       [] name = "char->integer" -> IF Tag(a) # "c" THEN PErr ELSE PV(Num(a[2]), heap)
       [] name = "integer->char" -> IF Tag(a) # "n" THEN PErr ELSE IF a[2] < 0 \/ a[2] > 255 THEN PUn ELSE PV(<<"c", a[2]>>, heap)
       [] name = "symbol->string" -> IF Tag(a) # "s" THEN PErr ELSE PV(<<"str", a[2]>>, heap)
       [] name = "string->symbol" -> IF Tag(a) # "str" THEN PErr ELSE PV(<<"s", a[2]>>, heap)
       [] name = "string-length" -> IF Tag(a) # "str" THEN PErr ELSE PV(Num(Len(a[2])), heap)
       [] name \in {"gc", "%gc", "noop"} -> PV(Opq, heap)
       [] OTHER -> PUn

\* --------------------------------------------------------------- application
CallClosure(m, f, args) ==
  LET c == m.heap[f[2]]      \* <<"closure", names, rest, body, env>>
      np == Len(c[2])
  IN IF Len(args) < np \/ (c[3] = "" /\ Len(args) > np) THEN Err(m)
     ELSE IF ~Distinct(c[2]) \/ (c[3] # "" /\ c[3] \in RangeSet(c[2], 1)) THEN Unspec(m, "parameters")
     ELSE IF c[3] = "" THEN
       Seq0([m EXCEPT !.heap = NewFrame(m, c[2], args, c[5])], c[4], NextLoc(m), None)
     ELSE LET r == ListOf(m.heap, SubSeq(args, np + 1, Len(args)))
              e == <<"env", c[5], (c[3] :> r[1]) @@ BindAll(c[2], SubSeq(args, 1, np))>>
          IN Seq0([m EXCEPT !.heap = Append(r[2], e)], c[4], Len(r[2]) + 1, None)

IsProc(v) == Tag(v) \in {"clo", "prim", "k"}

\* lists of values for map: one more round, or the result
\* a list as map and for-each go through it: its elements, and the end of an improper one
ImproperEnd == <<"improper end">>
ToWalk(e) == IF e.ok THEN e.es ELSE Append(e.es, ImproperEnd)
MapStep(m, f, ls, done) ==
  \* the first list that ends here, properly or not, decides
  IF \E i \in 1..Len(ls) : Len(ls[i]) = 0 \/ ls[i][1] = ImproperEnd
  THEN LET i == CHOOSE i \in 1..Len(ls) : (Len(ls[i]) = 0 \/ ls[i][1] = ImproperEnd) /\ \A j \in 1..(i - 1) : Len(ls[j]) > 0 /\ ls[j][1] # ImproperEnd
       IN IF Len(ls[i]) = 0 THEN ValList(m, done) ELSE Err(m)
  ELSE ApplyK(m, f, [i \in 1..Len(ls) |-> ls[i][1]],
              <<"map", f, [i \in 1..Len(ls) |-> Tail(ls[i])], done>>)
ForEachStep(m, f, ls) ==
  IF Len(ls[1]) = 0 THEN Val(m, Opq)
  ELSE IF \E i \in 1..Len(ls) : ls[i][1] = ImproperEnd THEN Err(m)
  ELSE ApplyK(m, f, [i \in 1..Len(ls) |-> ls[i][1]], <<"foreach", f, [i \in 1..Len(ls) |-> Tail(ls[i])]>>)

ControlPrims == {"apply", "map", "map-in-order", "for-each", "call/cc", "call-with-current-continuation", "catch", "throw",
  "values", "call-with-values", "dynamic-wind", "force", "eval", "macroexpand", "macroexpand-1", "hash-fold", "procedure-name"}

Control(m, name, as) ==
  LET n == Len(as)
  IN CASE name = "apply" ->
            IF n < 2 THEN Err(m)
            ELSE LET e == Elems(m.heap, as[n])
                 IN IF ~IsProc(as[1]) THEN Err(m)
                    ELSE IF ~e.ok THEN (IF e.why = "circular" THEN Unspec(m, "apply") ELSE Err(m))
                    ELSE Apply(m, as[1], SubSeq(as, 2, n - 1) \o e.es)
       [] name \in {"map", "map-in-order"} ->
            IF n < 2 \/ ~IsProc(as[1]) THEN Err(m)
            ELSE IF \E i \in 2..n : Tag(as[i]) \notin {"p", "nil"} THEN Err(m)
            ELSE IF \E i \in 2..n : Elems(m.heap, as[i]).why = "circular" THEN Unspec(m, "map of a circular list")
            ELSE MapStep(m, as[1], [i \in 1..(n - 1) |-> ToWalk(Elems(m.heap, as[i + 1]))], <<>>)
       [] name = "for-each" ->
            IF ~IsProc(as[1]) THEN Err(m)
            ELSE IF \E i \in 2..n : Tag(as[i]) \notin {"p", "nil"} THEN Err(m)
            ELSE IF \E i \in 2..n : Elems(m.heap, as[i]).why = "circular" THEN Unspec(m, "for-each of a circular list")
            ELSE LET es == [i \in 1..(n - 1) |-> Elems(m.heap, as[i + 1]).es]
                 IN IF \E i \in 1..(n - 1) : Len(es[i]) # Len(es[1]) THEN Unspec(m, "for-each of unequal lists")
                    \* one that ends improperly is an error there
                    ELSE ForEachStep(m, as[1], [i \in 1..(n - 1) |-> IF \A j \in 2..n : Elems(m.heap, as[j]).ok THEN es[i] ELSE Append(es[i], ImproperEnd)])
       [] name \in {"call/cc", "call-with-current-continuation"} ->
            IF n # 1 THEN Unspec(m, "call/cc arity")
            ELSE IF ~IsProc(as[1]) THEN Err(m)
            ELSE Apply([m EXCEPT !.heap = New(m, <<"cont", m.k, m.w, m.h, m.ji>>)], as[1], <<<<"k", NextLoc(m)>>>>)
       [] name = "values" -> Val(m, IF n = 1 THEN as[1] ELSE <<"vals", as>>)
       [] name = "call-with-values" -> ApplyK(m, as[1], <<>>, <<"cwv", as[2]>>)
       [] name = "dynamic-wind" ->
            IF \E i \in 1..3 : ~IsProc(as[i]) THEN Err(m)
            ELSE ApplyK(m, as[1], <<>>, <<"windin", as[1], as[2], as[3]>>)
       [] name = "catch" ->
            IF n < 3 THEN Err(m)
            ELSE IF n > 3 THEN Unspec(m, "catch")
            ELSE IF Tag(as[1]) = "opq" THEN Unspec(m, "catch tag")
            ELSE IF Tag(as[1]) # "s" /\ as[1] # True THEN Err(m)
            ELSE IF ~IsProc(as[2]) \/ ~IsProc(as[3]) THEN Err(m)
            ELSE [ApplyK(m, as[2], <<>>, <<"catch", Len(m.h)>>)
                    EXCEPT !.h = Append(m.h, [tag |-> as[1], hd |-> as[3], k |-> m.k, w |-> m.w])]
       [] name = "throw" ->
            IF n = 0 THEN Err(m)
            ELSE IF Tag(as[1]) = "opq" THEN Unspec(m, "throw key")
            ELSE IF Tag(as[1]) # "s" THEN Err(m)
            ELSE Throw(m, as[1], Tail(as))
       [] name = "force" ->
            IF Tag(as[1]) # "prom" THEN Err(m)
            ELSE LET p == m.heap[as[1][2]]
                 IN IF p[2] THEN Val(m, p[3])
                    \* the promise's expression is a body of its own
                    ELSE EvK([m EXCEPT !.heap = NewFrame(m, <<>>, <<>>, p[4])], p[3], NextLoc(m), <<"force", as[1][2]>>)
       [] name = "eval" -> Ev(m, ToTree(m.heap, as[1], 100), GlobalEnv)
       [] name = "hash-fold" ->
            IF Tag(as[3]) # "h" THEN Err(m)
            ELSE IF ~IsProc(as[1]) THEN Unspec(m, "hash-fold")
            ELSE LET hs == m.heap[as[3][2]][2]
                 IN IF Len(hs) = 0 THEN Val(m, as[2])
                    ELSE ApplyK(m, as[1], <<m.heap[hs[1]][2], m.heap[hs[1]][3], as[2]>>, <<"fold", as[1], Tail(hs)>>)
       [] OTHER -> Unspec(m, "primitive " \o name)

\* the traces: every one must have this event next
EmitStep(m, v, traces) ==
  IF ~Claimed(m.heap, v, 60) THEN Unspec(m, "emission of something unclaimed")
  ELSE LET txt == Show(m.heap, v, 200)
           i == m.ne + 1
           badt == {j \in 1..Len(traces) : Len(traces[j].ev) < i}
           badv == {j \in 1..Len(traces) : Len(traces[j].ev) >= i /\ traces[j].ev[IF Len(traces[j].ev) < i THEN 1 ELSE i] # txt}
       IN IF badt # {} THEN
            \* the run stopped early: only its not having enough time excuses it
            IF \A j \in badt : traces[j].st = "timeout" THEN Unspec(m, "timeout")
            ELSE [m EXCEPT !.mode = "bad", !.x = "event " \o ToString(i) \o ": expected " \o txt \o
                    ", the run ended (" \o traces[CHOOSE j \in badt : traces[j].st # "timeout"].st \o ")"]
          ELSE IF badv # {} THEN
            [m EXCEPT !.mode = "bad", !.x = "event " \o ToString(i) \o ": expected " \o txt \o ", observed " \o
                       traces[CHOOSE j \in badv : TRUE].ev[i]]
          ELSE Val([m EXCEPT !.ne = i], v)

ApplyStep(m, traces) ==
  LET f == m.x[1]
      as == m.x[2]
  IN CASE Tag(f) = "clo" -> CallClosure(m, f, as)
       [] Tag(f) = "k" ->
            LET c == m.heap[f[2]]        \* <<"cont", k, w, h, ji>>
            IN IF c[5] # m.ji THEN Unspec(m, "continuation into or out of a guard during a jump")
               ELSE StartJump(m, c[3], <<"k", IF Len(as) = 1 THEN as[1] ELSE <<"vals", as>>, c[2], c[4], c[5]>>)
       [] Tag(f) = "prim" ->
            LET name == f[2]
                ar == PrimArity(name)
            IN IF ar >= 0 /\ ar # Len(as) THEN ArityErr(m)
               ELSE IF name = "emit" THEN EmitStep(m, as[1], traces)
               ELSE IF name \in ControlPrims THEN Control(m, name, as)
               ELSE IF \E i \in 1..Len(as) : Tag(as[i]) = "vals" THEN Unspec(m, "values where one value is expected")
               ELSE LET r == Pure(name, as, m.heap)
                    IN CASE r.r = "val" -> [m EXCEPT !.mode = "v", !.x = r.v, !.heap = r.heap]
                         [] r.r = "err" -> Err(m)
                         [] OTHER -> Unspec(m, "primitive " \o name)
       [] Tag(f) = "opq" -> Unspec(m, "application of something unclaimed")
       [] OTHER -> Err(m)

\* a datum of a case clause selects the value
\* evaluating it does nothing anyone can see
Trivial(t) == Tag(t) \in {"n", "b", "str", "c", "s", "q"} \/ t = <<"l", <<>>>> \/ HeadIs(t, "quote")
DatumIs(t, v) == IF t = <<"l", <<>>>> THEN v = Nil ELSE t = v

\* ------------------------------------------------------------ continuations
\* the value v reaches the innermost frame
ReturnStep(m) ==
  LET v == m.x
      fr == m.k[1]
      p == [m EXCEPT !.k = m.k[2]]
      kind == fr[1]
  IN IF Tag(v) = "vals" /\ kind \notin {"seq", "cwv", "catch", "windin", "windbody", "windout", "jump", "jumpin", "foreach", "force"}
       THEN Unspec(m, "values where one value is expected")
     ELSE IF Tag(v) = "opq" /\ kind \in {"if", "and", "or", "cond", "case", "dotest"} THEN Unspec(m, "test of something unclaimed")
     ELSE
     CASE kind = "seq" -> Seq0(p, fr[2], fr[3], None)
       [] kind = "if" -> Ev(p, IF IsFalse(v) THEN fr[3] ELSE fr[2], fr[4])
       [] kind = "and" -> IF IsFalse(v) THEN Val(p, v)
                          ELSE IF Len(fr[2]) = 1 THEN Ev(p, fr[2][1], fr[3])
                          ELSE EvK(p, fr[2][1], fr[3], <<"and", Tail(fr[2]), fr[3]>>)
       [] kind = "or" -> IF ~IsFalse(v) THEN Val(p, v)
                         ELSE IF Len(fr[2]) = 1 THEN Ev(p, fr[2][1], fr[3])
                         ELSE EvK(p, fr[2][1], fr[3], <<"or", Tail(fr[2]), fr[3]>>)
       [] kind = "cond" ->
            LET c == fr[2][fr[3]][2]
            IN IF IsFalse(v) THEN CondFrom(p, fr[2], fr[3] + 1, fr[4])
               ELSE IF Len(c) = 1 THEN Val(p, v)
               ELSE IF c[2] = S("=>") THEN
                 IF Len(c) = 2 /\ FindEnv(m.heap, fr[4], "=>") \in {0, GlobalEnv} THEN Err(p)
                 ELSE IF FindEnv(m.heap, fr[4], "=>") \notin {0, GlobalEnv} THEN Seq0(p, Tail(c), fr[4], None)   \* a variable
                 ELSE IF Len(c) # 3 \/ FindEnv(m.heap, fr[4], "=>") # 0 THEN Unspec(m, "cond =>")
                 ELSE EvK(p, c[3], fr[4], <<"arrow", v>>)
               ELSE Seq0(p, Tail(c), fr[4], None)
       [] kind = "arrow" -> Apply(p, v, <<fr[2]>>)
       [] kind = "case" ->
            LET cs == fr[2]
                odd(i) == Tag(cs[i]) = "d" \/ (IsL(cs[i]) /\ Len(cs[i][2]) > 0 /\ Tag(cs[i][2][1]) = "d")
                bad(i) == ~IsL(cs[i]) \/ Len(cs[i][2]) = 0 \/ (cs[i][2][1] # S("else") /\ ~IsL(cs[i][2][1]))
                hits == {i \in 1..Len(cs) : bad(i) \/ cs[i][2][1] = S("else")
                                             \/ \E j \in 1..Len(cs[i][2][1][2]) : DatumIs(cs[i][2][1][2][j], v)}
            IN IF \E i \in 1..Len(cs) : odd(i) THEN Unspec(m, "case")
               ELSE IF Tag(v) = "str" THEN Unspec(m, "case of a string")
               ELSE IF hits = {} THEN Val(p, False)
               ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
                    IN IF bad(i) \/ Len(cs[i][2]) = 1 THEN Err(p) ELSE Seq0(p, Tail(cs[i][2]), fr[3], None)
       [] kind = "def" ->
            IF fr[2] \in {"map", "map-in-order", "apply"} THEN Unspec(m, "definition of a form's name")
            ELSE [p EXCEPT !.mode = "v", !.x = Opq, !.heap = SetIn(m.heap, fr[3], fr[2], v)]
       [] kind = "set" ->
            LET e == FindEnv(m.heap, fr[3], fr[2])
            IN IF e = 0 /\ fr[2] \in AllPrims /\ fr[2] \notin {"map", "map-in-order", "apply"} THEN [p EXCEPT !.mode = "v", !.x = None, !.heap = SetIn(m.heap, GlobalEnv, fr[2], v)]
               ELSE IF e = 0 THEN Unspec(m, "set! of an unbound variable")
               ELSE [p EXCEPT !.mode = "v", !.x = None, !.heap = SetIn(m.heap, e, fr[2], v)]
       [] kind = "defmac" ->
            IF Tag(v) # "clo" THEN Unspec(m, "define-macro")
            ELSE [p EXCEPT !.mode = "v", !.x = Opq,
                           !.heap = SetIn(New(m, <<"macro", v>>), GlobalEnv, fr[2], <<"mac", NextLoc(m)>>)]
       [] kind = "expand" -> Ev(p, ToTree(m.heap, v, 100), fr[2])
       [] kind = "args" ->
            \* an operator that cannot be applied is reported before its operands are evaluated
            IF Len(fr[2]) = 0 /\ ~IsProc(v) THEN
              IF Tag(v) \in {"opq", "mac"} THEN Unspec(m, "operator") ELSE Err(p)
            ELSE LET done == Append(fr[2], v)
            IN IF Len(fr[2]) = 1 /\ fr[2][1][1] = "prim" /\ fr[2][1][2] \in {"map", "map-in-order", "for-each"} /\ ~IsProc(v)
                    /\ \E i \in 1..Len(fr[3]) : ~Trivial(fr[3][i])
                 THEN Unspec(m, "when map checks its procedure")
               ELSE IF Len(fr[3]) = 0 THEN Apply(p, done[1], Tail(done))
               ELSE EvK(p, fr[3][1], fr[4], <<"args", done, Tail(fr[3]), fr[4]>>)
       [] kind = "let" ->
            LET done == Append(fr[3], v)
            IN IF Len(fr[4]) = 0
               THEN Seq0([p EXCEPT !.heap = NewFrame(m, fr[2], done, fr[6])], fr[5], NextLoc(m), False)
               ELSE EvK(p, fr[4][1], fr[6], <<"let", fr[2], done, Tail(fr[4]), fr[5], fr[6]>>)
       [] kind = "nlet" ->     \* <<"nlet", name, names, done, inits, body, env>>
            LET done == Append(fr[4], v)
            IN IF Len(fr[5]) > 0
               THEN EvK(p, fr[5][1], fr[7], <<"nlet", fr[2], fr[3], done, Tail(fr[5]), fr[6], fr[7]>>)
               ELSE LET e == NextLoc(m)
                        f == <<"clo", e + 1>>
                        hp == m.heap \o <<<<"env", fr[7], (fr[2] :> f)>>, <<"closure", fr[3], "", fr[6], e>>>>
                    IN Apply([p EXCEPT !.heap = hp], f, done)
       [] kind = "dobind" ->   \* <<"dobind", d, done, rest, test, body, evalenv, env>>
            LET done == Append(fr[3], v)
                e == NextLoc(m)
            IN IF Len(fr[4]) > 0
               THEN EvK(p, fr[4][1], fr[7], <<"dobind", fr[2], done, Tail(fr[4]), fr[5], fr[6], fr[7], fr[8]>>)
               ELSE EvK([p EXCEPT !.heap = NewFrame(m, fr[2].names, done, fr[8])], fr[5][1], e,
                        <<"dotest", fr[2], fr[5], fr[6], e, fr[8]>>)
       [] kind = "dotest" ->   \* <<"dotest", d, test, body, doenv, env>>
            IF IsFalse(v)
            THEN Seq0([p EXCEPT !.k = <<<<"dostep", fr[2], fr[3], fr[4], fr[5], fr[6]>>, p.k>>], fr[4], fr[5], None)
            ELSE Seq0(p, Tail(fr[3]), fr[5], None)
       [] kind = "dostep" ->
            LET d == fr[2]
            IN IF Len(d.names) = 0
               THEN EvK([p EXCEPT !.heap = New(m, <<"env", fr[6], EmptyBindings>>)], fr[3][1], NextLoc(m),
                        <<"dotest", d, fr[3], fr[4], NextLoc(m), fr[6]>>)
               ELSE EvK(p, d.steps[1], fr[5], <<"dobind", d, <<>>, Tail(d.steps), fr[3], fr[4], fr[5], fr[6]>>)
       [] kind = "map" -> MapStep(p, fr[2], fr[3], Append(fr[4], v))
       [] kind = "foreach" -> ForEachStep(p, fr[2], fr[3])
       [] kind = "fold" ->
            IF Len(fr[3]) = 0 THEN Val(p, v)
            ELSE LET c == m.heap[fr[3][1]] IN ApplyK(p, fr[2], <<c[2], c[3], v>>, <<"fold", fr[2], Tail(fr[3])>>)
       [] kind = "cwv" -> Apply(p, fr[2], IF Tag(v) = "vals" THEN v[2] ELSE <<v>>)
       [] kind = "catch" -> Val([p EXCEPT !.h = SubSeq(m.h, 1, fr[2])], v)
       [] kind = "windin" ->
            LET loc == NextLoc(m)
            IN [ApplyK(p, fr[3], <<>>, <<"windbody", fr[4]>>)
                  EXCEPT !.heap = New(m, <<"wind", fr[2], fr[4]>>), !.w = Append(m.w, loc)]
       [] kind = "windbody" -> [ApplyK(p, fr[2], <<>>, <<"windout", v>>) EXCEPT !.w = Front(m.w)]
       [] kind = "windout" -> Val(p, fr[2])
       [] kind = "jump" -> Jump(p, fr[2], fr[3])
       [] kind = "jumpin" -> Jump([p EXCEPT !.w = Append(m.w, fr[2])], fr[3], fr[4])
       [] kind = "force" ->
            LET pr == m.heap[fr[2]]
            IN IF pr[2] THEN Val(p, pr[3])
               ELSE [p EXCEPT !.mode = "v", !.x = v, !.heap = [m.heap EXCEPT ![fr[2]] = <<"promise", TRUE, v, 0>>]]
       [] OTHER -> Unspec(m, "frame " \o kind)

\* ------------------------------------------------------------------- program
InitState(prog) ==
  [mode |-> "e", x |-> prog[1], env |-> GlobalEnv, k |-> <<>>, w |-> <<>>, h |-> <<>>,
   ji |-> <<>>, jc |-> 0, pc |-> 1, ne |-> 0, n |-> 0, heap |-> <<<<"env", 0, EmptyBindings>>>>]

Finish(m, traces) ==
  LET late == {j \in 1..Len(traces) : Len(traces[j].ev) > m.ne}
      ended == {j \in 1..Len(traces) : traces[j].st # "ok"}
  IN IF late # {} THEN [m EXCEPT !.mode = "bad", !.x = "an event too many: " \o traces[CHOOSE j \in late : TRUE].ev[m.ne + 1]]
     ELSE IF \E j \in ended : traces[j].st # "timeout"
       THEN [m EXCEPT !.mode = "bad", !.x = "the run ended with " \o traces[CHOOSE j \in ended : traces[j].st # "timeout"].st]
     ELSE IF ended # {} THEN Unspec(m, "timeout")
     ELSE [m EXCEPT !.mode = "done"]

Step1(m, prog, traces, maxsteps) ==
  LET s == [m EXCEPT !.n = m.n + 1]
  IN IF m.n >= maxsteps \/ Len(m.heap) > 3000 THEN Unspec(m, "step limit")
     ELSE CASE m.mode = "e" -> EvalStep(s, AllPrims)
            [] m.mode = "a" -> ApplyStep(s, traces)
            [] m.mode = "jump" -> DoJump(s)
            [] m.k = <<>> ->     \* "v": a toplevel form is done (an error in it ends it too)
                 IF m.pc = Len(prog) THEN Finish(s, traces)
                 ELSE Ev([s EXCEPT !.pc = m.pc + 1, !.h = <<>>, !.w = m.w], prog[m.pc + 1], GlobalEnv)
            [] OTHER -> ReturnStep(s)

Running(m) == m.mode \in {"e", "v", "a", "jump"}
RECURSIVE StepN(_, _, _, _, _)
StepN(m, prog, traces, maxsteps, i) ==
  IF i = 0 \/ ~Running(m) THEN m ELSE StepN(Step1(m, prog, traces, maxsteps), prog, traces, maxsteps, i - 1)

\* --------------------------------------------------------------- invariants
\* What every reachable state of the machine satisfies.
WindsKnown(m) == \A i \in 1..Len(m.w) : m.heap[m.w[i]][1] = "wind"
WindsOnce(m) == \A i, j \in 1..Len(m.w) : m.w[i] = m.w[j] => i = j
CatchNested(m) == \A i \in 1..Len(m.h) :
                    /\ (m.ji = <<>> => IsPrefixOf(m.h[i].w, m.w))
                    /\ (i > 1 => IsPrefixOf(m.h[i - 1].w, m.h[i].w))
EnvOk(m) == m.mode = "e" => m.heap[m.env][1] = "env" /\ m.heap[m.env][2] < m.env
TopClean(m) == m.mode = "done" => m.w = <<>> /\ m.h = <<>> /\ m.ji = <<>>
MachineInv(m) == WindsKnown(m) /\ WindsOnce(m) /\ CatchNested(m) /\ EnvOk(m) /\ TopClean(m)
=============================================================================
