------------------------------ MODULE Foreign ------------------------------
(***************************************************************************)
(* Variable objects and foreign objects (smobs), through Scheme and the C  *)
(* interface (C22).  A foreign object has the type it was made for and     *)
(* four data; its type has a name and possibly its own comparison, printer *)
(* and procedures for 0..3 arguments.  A variable object holds a value or  *)
(* is unbound.  Every step is followed by a look at all of them.           *)
(***************************************************************************)
EXTENDS Path

CONSTANTS NVar, NType, Data, Options, Ops, MaxObj, MaxLen, Sim
\* Options: {[eq, pr, ar]}: own comparison, own printer, the numbers of arguments a type's objects take

VARIABLES x,     \* variable -> value: <<"n", k>>, <<"s", object>>, <<"v", variable object>>
          types, \* sequence of options with a name and a size
          obj,   \* sequence of [t, d]: foreign objects
          box    \* sequence of values, or <<"u">> for unbound
vars == <<x, types, obj, box, hist>>

V == 1..NVar
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
XV(i) == "x" \o Str(i)
TV(i) == "t" \o Str(i)
AllVars == Words([i \in V |-> XV(i)])
AllTypes == Words([i \in 1..Len(types) |-> TV(i)])
T == 1..Len(types)

\* ------------------------------------------------------------------ looking
\* other values <<"o", k>>: expression, text
Other == <<<<"(if #f #f)", "none">>, <<"#f", "#f">>, <<"'()", "()">>, <<"'k", "k">>, <<"#t", "#t">>>>
First(y, v) == LET s == {i \in V : y[i] = v} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
LookObj(o) == "(s " \o Words([k \in 1..4 |-> Str(o.d[k])]) \o " " \o Str(o.t) \o ")"
LookAt(y, ob, bx, v) ==
  CASE v[1] = "n" -> Str(v[2])
    [] v[1] = "o" -> Other[v[2]][2]
    [] v[1] = "s" -> LookObj(ob[v[2]])
    [] OTHER -> LET c == bx[v[2]] IN IF c[1] = "u" THEN "(v)" ELSE IF c[1] = "n" THEN "(v n " \o Str(c[2]) \o ")" ELSE "(v " \o Str(First(y, c)) \o ")"
SameObj(ty, ob, a, b) == a = b \/ (a[1] = "s" /\ b[1] = "s" /\ ob[a[2]].t = ob[b[2]].t /\ ty[ob[a[2]].t].eq /\ ob[a[2]].d[2] = ob[b[2]].d[2])
Row(ty, ob, y, i, Eq(_, _)) == "(" \o Words([j \in V |-> IF Eq(y[i], y[j]) THEN "1" ELSE "0"]) \o ")"
Look(y, ty, ob, bx) ==
  LET Is(a, b) == a = b
      Equ(a, b) == SameObj(ty, ob, a, b)
  IN ListText(<<ListText([i \in V |-> LookAt(y, ob, bx, y[i])]), ListText([i \in V |-> Row(ty, ob, y, i, Is)]), ListText([i \in V |-> Row(ty, ob, y, i, Equ)])>>)

Step(op, y, ty, ob, bx) ==
  /\ Len(ob) <= MaxObj /\ Len(bx) <= MaxObj
  /\ x' = y /\ types' = ty /\ obj' = ob /\ box' = bx
  /\ Do("(begin " \o op \o " (look (list " \o Words([i \in 1..Len(ty) |-> TV(i)]) \o ") " \o AllVars \o "))", Look(y, ty, ob, bx))
See(e, shown) == UNCHANGED <<x, types, obj, box>> /\ Do(e, shown)
Bad(e) == See("(list " \o e \o " (look (list " \o AllTypes \o ") " \o AllVars \o "))", "(bad " \o Look(x, types, obj, box) \o ")")
Try(e) == "(catch #t (lambda () " \o e \o " 'no-error) (lambda k 'bad))"
Assign(i, e, v, ob, bx) == Step("(set! " \o XV(i) \o " " \o e \o ")", [x EXCEPT ![i] = v], types, ob, bx)

\* ------------------------------------------------------------------- making
Sum(o) == (IF o.eq THEN 1 ELSE 0) + (IF o.pr THEN 2 ELSE 0) + (IF 0 \in o.ar THEN 4 ELSE 0) + (IF 1 \in o.ar THEN 8 ELSE 0) + (IF 2 \in o.ar THEN 16 ELSE 0) + (IF 3 \in o.ar THEN 32 ELSE 0)
Name(k) == "type" \o Str(k)
DoType == Len(types) < NType /\ \E o \in Pick(Options), size \in Pick({0, 8}), how \in Pick({"c", "scheme"}) :
            LET k == Len(types) + 1
                o2 == IF how = "scheme" THEN [eq |-> FALSE, pr |-> FALSE, ar |-> {}] ELSE o
            IN Step("(set! " \o TV(k) \o " " \o (IF how = "scheme" THEN "(scm-make-smob-type \"" \o Name(k) \o "\" " \o Str(size) \o ")"
                                                   ELSE "(%smob-type \"" \o Name(k) \o "\" " \o Str(size) \o " " \o Str(Sum(o)) \o ")") \o ")",
                    x, Append(types, o2 @@ [size |-> size]), obj, box)
New(t, d) == Append(obj, [t |-> t, d |-> d])
DoMake(i) == T # {} /\ \E t \in Pick(T), a \in Pick(Data), b \in Pick(Data), c \in Pick(Data), how \in Pick({"scheme", "1", "2", "3"}) :
  /\ how = "3" \/ Sim \/ c = 0
  /\ how \in {"2", "3"} \/ Sim \/ b = 0
  /\ LET d == CASE how \in {"scheme", "1"} -> <<a, 0, 0, 0>> [] how = "2" -> <<a, b, 0, 0>> [] OTHER -> <<a, b, c, 0>>
         e == CASE how = "scheme" -> "(scm-make-smob " \o TV(t) \o " " \o Str(a) \o ")" [] how = "1" -> "(%smob " \o TV(t) \o " " \o Str(a) \o ")"
                [] how = "2" -> "(%smob " \o TV(t) \o " " \o Str(a) \o " " \o Str(b) \o ")" [] OTHER -> "(%smob " \o TV(t) \o " " \o Str(a) \o " " \o Str(b) \o " " \o Str(c) \o ")"
     IN Assign(i, e, <<"s", Len(obj) + 1>>, New(t, d), box)
DoBox(i) == \E j \in Pick(V) : Assign(i, "(make-variable " \o XV(j) \o ")", <<"v", Len(box) + 1>>, obj, Append(box, x[j]))
DoUndef(i) == Assign(i, "(make-undefined-variable)", <<"v", Len(box) + 1>>, obj, Append(box, <<"u">>))
DoNum(i) == \E k \in Pick(Data) : Assign(i, Str(k), <<"n", k>>, obj, box)
DoOther(i) == \E k \in Pick(1..5) : Assign(i, Other[k][1], <<"o", k>>, obj, box)
DoCopy(i) == \E j \in Pick(V), how \in Pick({"", "car", "vec", "call", "hash", "box", "force"}) :
  LET s == XV(j) IN
  Assign(i, CASE how = "" -> s [] how = "car" -> "(car (list " \o s \o "))" [] how = "vec" -> "(vector-ref (vector " \o s \o ") 0)" [] how = "call" -> "((lambda (a . r) (car r)) 1 " \o s \o ")"
              [] how = "hash" -> "(let ((h (make-hash-table 3))) (hash-set! h 'k " \o s \o ") (hash-ref h 'k))" [] how = "box" -> "(variable-ref (make-variable " \o s \o "))"
              [] OTHER -> "(force (delay " \o s \o "))", x[j], obj, box)

\* ----------------------------------------------------------------- changing
DoSet(i) == \E f \in Pick(1..4), k \in Pick(Data) :
  LET e == "(%smob-set! " \o XV(i) \o " " \o Str(f) \o " " \o Str(k) \o ")"
  IN IF x[i][1] = "s" THEN Step(e, x, types, [obj EXCEPT ![x[i][2]].d[f] = k], box) ELSE Bad(Try(e))
DoPut(i) == \E j \in Pick(V) :
  LET e == "(variable-set! " \o XV(i) \o " " \o XV(j) \o ")"
  IN IF x[i][1] = "v" THEN Step(e, x, types, obj, [box EXCEPT ![x[i][2]] = x[j]]) ELSE Bad(Try(e))
DoTake(i) == \E j \in Pick(V) :
  LET e == "(variable-ref " \o XV(j) \o ")"
  IN IF x[j][1] = "v" /\ box[x[j][2]][1] # "u" THEN Assign(i, e, box[x[j][2]], obj, box) ELSE Bad(Try(e))

\* ------------------------------------------------------------------- asking
DoBound(i) == LET e == "(variable-bound? " \o XV(i) \o ")" IN IF x[i][1] = "v" THEN See(e, BoolText(box[x[i][2]][1] # "u")) ELSE Bad(Try(e))
DoKind(i) == See("(list (variable? " \o XV(i) \o ") (scm-smob? " \o XV(i) \o ") (number? " \o XV(i) \o "))", ListText(<<BoolText(x[i][1] = "v"), BoolText(x[i][1] = "s"), BoolText(x[i][1] = "n")>>))
DoData(i) == LET e == "(scm-smob-data " \o XV(i) \o ")" IN IF x[i][1] = "s" /\ types[obj[x[i][2]].t].size = 0 THEN See(e, Str(obj[x[i][2]].d[1])) ELSE Bad(Try(e))
DoAssert(i) == T # {} /\ \E t \in Pick(T) : LET e == "(%smob-assert " \o XV(i) \o " " \o TV(t) \o ")" IN IF x[i][1] = "s" /\ obj[x[i][2]].t = t THEN See(e, "#t") ELSE Bad(Try(e))
\* a number is no type
DoNoType == \E k \in Pick({0, 1, -1, 300, 2000}), how \in Pick({"(scm-make-smob ", "(%smob "}) : Bad(Try(how \o Str(k) \o " 1)")) 
DoTooFar == T # {} /\ \E t \in Pick(T), k \in Pick({-1000, 1000}), how \in Pick({"(scm-make-smob ", "(%smob "}) : Bad(Try(how \o "(+ " \o TV(t) \o " " \o Str(k) \o ") 1)"))
Printed(v, w) == LET o == obj[v[2]] IN IF types[o.t].pr THEN "<" \o Str(o.d[1]) \o "/" \o Str(o.d[2]) \o " " \o w \o ">" ELSE "#<" \o Name(o.t) \o " " \o Str(o.d[1]) \o ">"
\* how a type of one's own without a printer shows the address of its data is not claimed
DoPrint(i) == /\ x[i][1] = "s" /\ (types[obj[x[i][2]].t].pr \/ types[obj[x[i][2]].t].size = 0)
              /\ \E how \in Pick({"write", "display", "list", "vector", "two"}) :
                 See("(printed (lambda (p) " \o (CASE how = "write" -> "(write " \o XV(i) \o " p)" [] how = "display" -> "(display " \o XV(i) \o " p)" [] how = "list" -> "(write (list 1 " \o XV(i) \o ") p)"
                                                  [] how = "vector" -> "(write (vector " \o XV(i) \o ") p)" [] OTHER -> "(write " \o XV(i) \o " p) (display 5 p) (write " \o XV(i) \o " p)") \o "))",
                     "\"" \o (CASE how = "write" -> Printed(x[i], "w") [] how = "display" -> Printed(x[i], "d") [] how = "list" -> "(1 " \o Printed(x[i], "w") \o ")" [] how = "vector" -> "#(" \o Printed(x[i], "w") \o ")"
                               [] OTHER -> Printed(x[i], "w") \o "5" \o Printed(x[i], "w")) \o "\"")
Args(n) == [k \in 1..n |-> Str(k + 6)]
DoApply(i) == \E n \in Pick(0..4), how \in Pick({"direct", "expr", "local", "operand", "apply", "spread"}) :
  LET s == XV(i)
      e == CASE how = "direct" -> Call(s, Args(n)) [] how = "expr" -> Call("(car (list " \o s \o "))", Args(n)) [] how = "local" -> "(let ((f " \o s \o ")) " \o Call("f", Args(n)) \o ")"
             [] how = "operand" -> Call(s, [k \in 1..n |-> "(+ " \o Str(k) \o " 6)"]) [] how = "apply" -> "(apply " \o s \o " (list " \o Words(Args(n)) \o "))"
             [] OTHER -> IF n = 0 THEN "(apply " \o s \o " '())" ELSE "(apply " \o s \o " 7 (cdr (list " \o Words(Args(n)) \o ")))"
  IN IF x[i][1] = "s" /\ n \in types[obj[x[i][2]].t].ar THEN See(e, "(" \o Words(<<Str(n), Str(obj[x[i][2]].d[1])>> \o Args(n)) \o ")") ELSE Bad(Try(e))
\* search and comparison go by the type's comparison
DoSearch(i) == See("(list (at " \o Str(NVar) \o " (member " \o XV(i) \o " (list " \o AllVars \o "))) (at " \o Str(NVar) \o " (memq " \o XV(i) \o " (list " \o AllVars \o "))) (cdr (assoc " \o XV(i) \o " (list " \o Words([j \in V |-> "(cons " \o XV(j) \o " " \o Str(j) \o ")"]) \o "))))",
                   LET s == {j \in V : SameObj(types, obj, x[i], x[j])}
                       m == CHOOSE j \in s : \A k \in s : j <= k
                   IN ListText(<<Str(m), Str(First(x, x[i])), Str(m)>>))
DoNested(i) == \E j \in Pick(V) : See("(list (equal? (list 1 " \o XV(i) \o ") (list 1 " \o XV(j) \o ")) (equal? (vector " \o XV(i) \o " 2) (vector " \o XV(j) \o " 2)) (equal? (cons " \o XV(i) \o " " \o XV(i) \o ") (cons " \o XV(j) \o " " \o XV(i) \o ")))",
                   LET b == BoolText(SameObj(types, obj, x[i], x[j])) IN ListText(<<b, b, b>>))

Init == /\ x = [i \in V |-> <<"n", 0>>] /\ types = <<>> /\ obj = <<>> /\ box = <<>>
        /\ hist = [i \in 1..(NVar + NType) |-> <<"!!(define " \o (IF i <= NVar THEN XV(i) ELSE TV(i - NVar)) \o " 0)", "">>]
Next == (Sim \/ Len(hist) < MaxLen + NVar + NType) /\ \E op \in (IF Sim THEN {RandomElement(Ops), "kind"} ELSE Ops), i \in Pick(V) :
  CASE op = "type" -> (Sim \/ i = 1) /\ DoType [] op = "make" -> DoMake(i) [] op = "box" -> DoBox(i) [] op = "undef" -> DoUndef(i) [] op = "num" -> DoNum(i) [] op = "other" -> DoOther(i) [] op = "copy" -> DoCopy(i)
    [] op = "set" -> DoSet(i) [] op = "put" -> DoPut(i) [] op = "take" -> DoTake(i) [] op = "bound" -> DoBound(i) [] op = "kind" -> DoKind(i) [] op = "data" -> DoData(i) [] op = "assert" -> DoAssert(i)
    [] op = "notype" -> DoNoType \/ DoTooFar [] op = "print" -> DoPrint(i) [] op = "apply" -> DoApply(i) [] op = "search" -> DoSearch(i) [] OTHER -> DoNested(i)
View == <<x, types, obj, box>>
Bound == TRUE
\* everything held is there, and has its type
Inv == /\ \A i \in V : (x[i][1] = "s" => x[i][2] \in DOMAIN obj) /\ (x[i][1] = "v" => x[i][2] \in DOMAIN box)
       /\ \A o \in DOMAIN obj : obj[o].t \in DOMAIN types
\* an object keeps its type for ever
Mono == [][\A o \in DOMAIN obj : o \in DOMAIN obj' /\ obj'[o].t = obj[o].t]_vars
=============================================================================
