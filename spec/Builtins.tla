------------------------------ MODULE Builtins ------------------------------
(***************************************************************************)
(* Builtins and their operands (C30).  Variables x1..xn hold values of     *)
(* different kinds, which valid operations change.  Then                   *)
(*  - every type predicate tells their kinds apart (True);                 *)
(*  - every builtin is called with one operand of a kind it does not       *)
(*    accept (Sigs), or with too few or too many operands: an error is     *)
(*    thrown, no procedure given to it runs, and neither any value, nor    *)
(*    the current ports, nor the current module change.                    *)
(* Names: which are defined, and what `defined?` says of them.             *)
(***************************************************************************)
EXTENDS Path

CONSTANTS NVar, Ops, Calls, MaxChange, MaxLen, Sim
\* Calls: the names of the builtins to call

VARIABLES x,     \* variable -> [k, n]: the kind, and how often it was changed
          names  \* the names defined so far
vars == <<x, names, hist>>

V == 1..NVar
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
XV(i) == "x" \o Str(i)
Numbers == {"int", "neg", "ratio", "float"}
Procedures == {"proc", "prim", "cont"}
All == Numbers \cup Procedures \cup {"char", "str", "sym", "true", "false", "nil", "list", "dotted", "vec", "hash", "promise", "inport", "outport", "module", "var", "eof", "none"}

\* an expression making a value of a kind
Make(k) == CASE k = "int" -> "5" [] k = "neg" -> "-3" [] k = "ratio" -> "1/2" [] k = "float" -> "1.5" [] k = "char" -> "#\\a" [] k = "str" -> "(string #\\a #\\b #\\c)" [] k = "sym" -> "'sym"
  [] k = "true" -> "#t" [] k = "false" -> "#f" [] k = "nil" -> "'()" [] k = "list" -> "(list 1 2)" [] k = "dotted" -> "(cons 1 2)" [] k = "vec" -> "(vector 1 2 3)"
  [] k = "hash" -> "(let ((h (make-hash-table 3))) (hash-set! h 'k 0) h)" [] k = "proc" -> "(lambda r (set! ran (+ ran 1)) 1)" [] k = "prim" -> "cadr" [] k = "cont" -> "(call/cc (lambda (k) k))"
  [] k = "promise" -> "(delay (begin (set! ran (+ ran 1)) 1))" [] k = "inport" -> "(open-input-string \"abcdef\")" [] k = "outport" -> "(open-output-string)" [] k = "module" -> "(current-module)"
  [] k = "var" -> "(make-variable 0)" [] k = "eof" -> "(read-char (open-input-string \"\"))" [] OTHER -> "(if #f #f)"
\* a valid operation that changes one
Mutable == {"list", "dotted", "vec", "hash", "str", "inport", "outport", "var"}
ChangeOf(k, v, n) == CASE k \in {"list", "dotted"} -> "(set-car! " \o v \o " " \o Str(n) \o ")" [] k = "vec" -> "(vector-set! " \o v \o " 1 " \o Str(n) \o ")" [] k = "hash" -> "(hash-set! " \o v \o " 'k " \o Str(n) \o ")"
  [] k = "str" -> "(string-set! " \o v \o " 0 (integer->char " \o Str(97 + n) \o "))" [] k = "inport" -> "(read-char " \o v \o ")" [] k = "outport" -> "(write-char #\\x " \o v \o ")" [] OTHER -> "(variable-set! " \o v \o " " \o Str(n) \o ")"
\* looking at one, and what is seen after n changes
Look(k, v) == CASE k \in Numbers \cup {"sym", "true", "false", "nil", "list", "dotted", "vec"} -> v [] k = "char" -> "(char->integer " \o v \o ")" [] k = "str" -> "(map char->integer (string->list " \o v \o "))"
  [] k = "hash" -> "(hash-fold (lambda (k v l) (cons (cons k v) l)) '() " \o v \o ")" [] k \in Procedures \cup {"promise"} -> "(eq? " \o v \o " " \o v \o ")" [] k = "inport" -> "(char->integer (peek-char " \o v \o "))"
  [] k = "outport" -> "(string-length (get-output-string " \o v \o "))" [] k = "module" -> "(eq? " \o v \o " (current-module))" [] k = "var" -> "(list (variable-ref " \o v \o "))"
  [] k = "eof" -> "(eof-object? " \o v \o ")" [] OTHER -> "(list " \o "(eq? " \o v \o " (if #f #f)))"
Seen(k, n) == CASE k = "int" -> "5" [] k = "neg" -> "-3" [] k = "ratio" -> "1/2" [] k = "float" -> "~1.5" [] k = "char" -> "97" [] k = "str" -> "(" \o Str(97 + n) \o " 98 99)" [] k = "sym" -> "sym" [] k = "true" -> "#t" [] k = "false" -> "#f"
  [] k = "nil" -> "()" [] k = "list" -> "(" \o (IF n = 0 THEN "1" ELSE Str(n)) \o " 2)" [] k = "dotted" -> "(" \o (IF n = 0 THEN "1" ELSE Str(n)) \o " . 2)" [] k = "vec" -> "#(1 " \o (IF n = 0 THEN "2" ELSE Str(n)) \o " 3)"
  [] k = "hash" -> "((k . " \o Str(n) \o "))" [] k \in Procedures \cup {"promise", "module", "eof"} -> "#t" [] k = "inport" -> Str(97 + n) [] k = "outport" -> Str(n) [] k = "var" -> "(" \o Str(n) \o ")" [] OTHER -> "(#t)"

\* ------------------------------------------------------------ type predicates
\* the kinds a predicate holds of
True(p) == CASE p = "boolean?" -> {"true", "false"} [] p = "char?" -> {"char"} [] p = "string?" -> {"str"} [] p = "symbol?" -> {"sym"} [] p \in {"number?", "complex?", "real?"} -> Numbers
  [] p = "integer?" -> {"int", "neg"} [] p = "rational?" -> {"int", "neg", "ratio"} [] p = "null?" -> {"nil"} [] p = "pair?" -> {"list", "dotted"} [] p = "list?" -> {"nil", "list"} [] p = "vector?" -> {"vec"}
  [] p = "procedure?" -> Procedures [] p = "eof-object?" -> {"eof"} [] p = "input-port?" -> {"inport"} [] p = "output-port?" -> {"outport"} [] p = "variable?" -> {"var"} [] p = "module?" -> {"module"}
  [] p = "exact?" -> Numbers \ {"float"} [] p = "inexact?" -> {"float"} [] p = "scm-smob?" -> {} [] OTHER -> {"false"}
\* those not claimed: of floats, and exactness of what is no number
Unclaimed(p) == IF p \in {"integer?", "rational?"} THEN {"float"} ELSE IF p \in {"exact?", "inexact?"} THEN All \ Numbers ELSE {}
Predicates == {"boolean?", "char?", "string?", "symbol?", "number?", "complex?", "real?", "integer?", "rational?", "null?", "pair?", "list?", "vector?", "procedure?", "eof-object?", "input-port?", "output-port?",
  "variable?", "module?", "exact?", "inexact?", "scm-smob?", "not"}

\* ------------------------------------------------------------------ operands
\* the kind of the sample passed as a right operand of a class
Sample(c) == CASE c \in {"any", "num", "exint", "index"} -> "int" [] c = "char" -> "char" [] c = "str" -> "str" [] c = "sym" -> "sym" [] c \in {"list", "plist", "pair", "pair2"} -> "list" [] c = "vec" -> "vec" [] c = "hash" -> "hash"
  [] c \in {"proc", "thunk"} -> "proc" [] c = "promise" -> "promise" [] c \in {"inport", "inport1"} -> "inport" [] c \in {"outport", "outport1"} -> "outport" [] c = "module" -> "module" [] OTHER -> "var"
\* the kinds that are wrong for a class; what is in neither is not claimed
Wrong(c) == CASE c = "any" -> {} [] c = "num" -> All \ Numbers [] c = "exint" -> All \ Numbers [] c = "index" -> All \ {"int"} [] c \in {"char", "str", "sym", "vec", "hash", "promise", "module", "var"} -> All \ {c}
  [] c = "list" -> All \ {"list", "nil", "dotted"} [] c = "plist" -> All \ {"list", "nil"} [] c = "pair" -> All \ {"list", "dotted"} [] c = "pair2" -> All \ {"list"} [] c \in {"proc", "thunk"} -> All \ Procedures
  [] c = "inport" -> All \ {"inport"} [] c = "inport1" -> All \ {"inport", "nil"} [] c = "outport" -> All \ {"outport"} [] OTHER -> All \ {"outport", "nil"}
\* the builtins: {names}, the classes of the operands, and whether it takes exactly these
SigList == <<
  <<{"abs", "zero?", "positive?", "negative?", "sqrt", "odd?", "even?"},
    <<"num">>, TRUE>>,
  <<{"quotient", "modulo", "remainder", "expt"},
    <<"exint", "exint">>, TRUE>>,
  <<{"+", "-", "*", "/", "<", ">", "<=", ">=", "=", "max", "min"},
    <<"num", "num">>, FALSE>>,
  <<{"gcd", "lcm"},
    <<"exint", "exint">>, FALSE>>,
  <<{"car", "cdr"},
    <<"pair">>, TRUE>>,
  <<{"set-car!", "set-cdr!"},
    <<"pair", "any">>, TRUE>>,
  <<{"cadr", "cddr", "caddr"},
    <<"pair2">>, TRUE>>,
  <<{"length", "reverse", "list->vector", "list->string"},
    <<"plist">>, TRUE>>,
  <<{"list-tail", "list-head", "list-ref"},
    <<"list", "index">>, TRUE>>,
  <<{"memq", "memv", "member", "assq", "assv", "assoc"},
    <<"any", "list">>, TRUE>>,
  <<{"char->integer", "char-alphabetic?", "char-downcase", "char-upcase", "char-lower-case?", "char-upper-case?", "char-numeric?", "char-whitespace?"},
    <<"char">>, TRUE>>,
  <<{"char=?", "char<?", "char>?", "char<=?", "char>=?", "char-ci=?", "char-ci<?", "char-ci>?", "char-ci<=?", "char-ci>=?"},
    <<"char", "char">>, TRUE>>,
  <<{"integer->char"},
    <<"index">>, TRUE>>,
  <<{"string-length", "string->list", "string->symbol", "open-input-string", "open-input-file", "open-output-file", "load"},
    <<"str">>, TRUE>>,
  <<{"string->number"},
    <<"str">>, FALSE>>,
  <<{"string=?", "string<?", "string>?", "string<=?", "string>=?", "string-ci=?", "string-ci<?", "string-ci>?", "string-ci<=?", "string-ci>=?"},
    <<"str", "str">>, TRUE>>,
  <<{"string-append"},
    <<"str", "str">>, FALSE>>,
  <<{"string-ref"},
    <<"str", "index">>, TRUE>>,
  <<{"string-set!"},
    <<"str", "index", "char">>, TRUE>>,
  <<{"substring"},
    <<"str", "index", "index">>, TRUE>>,
  <<{"make-string"},
    <<"index", "char">>, FALSE>>,
  <<{"string"},
    <<"char", "char">>, FALSE>>,
  <<{"symbol->string", "defined?"},
    <<"sym">>, TRUE>>,
  <<{"number->string"},
    <<"num">>, FALSE>>,
  <<{"vector-length", "vector->list"},
    <<"vec">>, TRUE>>,
  <<{"vector-ref"},
    <<"vec", "index">>, TRUE>>,
  <<{"vector-set!"},
    <<"vec", "index", "any">>, TRUE>>,
  <<{"make-vector"},
    <<"index", "any">>, FALSE>>,
  <<{"hash-ref", "hashq-ref", "hashv-ref", "hash-get-handle", "hashq-get-handle", "hashv-get-handle", "hash-remove!", "hashq-remove!", "hashv-remove!"},
    <<"hash", "any">>, TRUE>>,
  <<{"hash-set!", "hashq-set!", "hashv-set!", "hash-create-handle!", "hashq-create-handle!", "hashv-create-handle!"},
    <<"hash", "any", "any">>, TRUE>>,
  <<{"force"},
    <<"promise">>, TRUE>>,
  <<{"read-char", "peek-char", "read", "char-ready?"},
    <<"inport1">>, FALSE>>,
  <<{"write-char"},
    <<"char", "outport1">>, FALSE>>,
  <<{"write", "display"},
    <<"any", "outport1">>, FALSE>>,
  <<{"newline", "force-output"},
    <<"outport1">>, FALSE>>,
  <<{"get-output-string", "close-output-port", "set-current-output-port", "set-current-error-port"},
    <<"outport">>, TRUE>>,
  <<{"close-input-port", "set-current-input-port"},
    <<"inport">>, TRUE>>,
  <<{"set-current-module"},
    <<"module">>, TRUE>>,
  <<{"variable-ref", "variable-bound?"},
    <<"var">>, TRUE>>,
  <<{"variable-set!"},
    <<"var", "any">>, TRUE>>,
  <<{"call-with-output-string", "call/cc"},
    <<"proc">>, FALSE>>,
  <<{"call-with-input-string", "call-with-input-file", "call-with-output-file"},
    <<"str", "proc">>, FALSE>>,
  <<{"map", "for-each"},
    <<"proc", "list">>, FALSE>>,
  <<{"apply"},
    <<"proc", "plist">>, FALSE>>,
  <<{"assq-set!", "assoc-set!"},
    <<"list", "any", "any">>, TRUE>>,
  <<{"assoc-ref", "assoc-remove!"},
    <<"list", "any">>, TRUE>>,
  <<{"throw"},
    <<"sym">>, FALSE>>,
  <<{"catch"},
    <<"any", "thunk", "proc">>, FALSE>>,
  <<{"dynamic-wind"},
    <<"thunk", "thunk", "thunk">>, FALSE>>,
  <<{"call-with-values"},
    <<"thunk", "proc">>, FALSE>>,
  <<{"module-bound?"},
    <<"module", "sym">>, TRUE>>,
  <<{"module-ref"},
    <<"module", "sym">>, FALSE>>,
  <<{"set-module-binder!"},
    <<"module", "proc">>, FALSE>>,
  <<{"procedure-name"},
    <<"proc">>, TRUE>>,
  <<{"scm-smob-data"},
    <<"vec">>, FALSE>> >>
Sigs == UNION {{<<f, s[2], s[3]>> : f \in s[1]} : s \in {SigList[i] : i \in DOMAIN SigList}}
Called == {s \in Sigs : s[1] \in Calls}
ASSUME Calls \subseteq {s[1] : s \in Sigs}

\* the calls with one operand of kind k that is wrong there
WrongAt(k) == UNION {{<<s, q>> : q \in {p \in DOMAIN s[2] : k \in Wrong(s[2][p])}} : s \in Called}
WrongOf == [k \in All |-> WrongAt(k)]
WrongCalls(k) == WrongOf[k]

\* everything that can be seen
Sight(y) == "(now) " \o Words([i \in V |-> Look(y[i].k, XV(i))])
SightText(y) == "(0 #t #t #t #t) " \o Words([i \in V |-> Seen(y[i].k, y[i].n)])
Same == UNCHANGED <<x, names>>
Ask(e, shown) == Same /\ Do(e, shown)

\* x_i as an operand of a kind, or a sample
Operand(c) == LET is == {i \in V : x[i].k = Sample(c)} IN IF Sim /\ is # {} /\ RandomElement(BOOLEAN) THEN XV(RandomElement(is)) ELSE Make(Sample(c))
Refused(call, key) == Ask("(list (catch #t (lambda () " \o call \o " 'accepted) (lambda (k . r) k)) " \o Sight(x) \o ")", "(" \o key \o " " \o SightText(x) \o ")")

DoNew(i) == \E k \in Pick(All) : /\ x' = [x EXCEPT ![i] = [k |-> k, n |-> 0]] /\ UNCHANGED names
  /\ Do("(begin (set! " \o XV(i) \o " " \o Make(k) \o ") (list " \o Look(k, XV(i)) \o "))", "(" \o Seen(k, 0) \o ")")
DoChange(i) == /\ x[i].k \in Mutable /\ x[i].n < MaxChange /\ x' = [x EXCEPT ![i].n = @ + 1] /\ UNCHANGED names
  /\ Do("(begin " \o ChangeOf(x[i].k, XV(i), x[i].n + 1) \o " (list " \o Look(x[i].k, XV(i)) \o "))", "(" \o Seen(x[i].k, x[i].n + 1) \o ")")
DoTest(i) == \E p \in Pick({r \in Predicates : x[i].k \notin Unclaimed(r)}), how \in Pick({"direct", "apply", "map"}) :
  Ask(CASE how = "direct" -> "(" \o p \o " " \o XV(i) \o ")" [] how = "apply" -> "(apply " \o p \o " (list " \o XV(i) \o "))" [] OTHER -> "(car (map " \o p \o " (list " \o XV(i) \o ")))", BoolText(x[i].k \in True(p)))
DoWrong(i) == \E c \in Pick(WrongCalls(x[i].k)) : LET s == c[1] q == c[2] IN
  Refused(Call(s[1], [j \in DOMAIN s[2] |-> IF j = q THEN XV(i) ELSE Operand(s[2][j])]), "error")
\* too few: without the last ones; too many: some more
DoCount(i) == \E s \in Pick({t \in Called : t[3]}), how \in Pick({"few", "none", "many", "more"}) :
  LET n == Len(s[2])
      m == CASE how = "few" -> n - 1 [] how = "none" -> 0 [] how = "many" -> n + 1 [] OTHER -> n + 4
  IN /\ m # n
     /\ Refused(Call(s[1], [j \in 1..m |-> IF j <= n THEN Operand(s[2][j]) ELSE XV(i)]), "wrong-number-of-args")
\* the same through apply, with a value that is called for the operator
DoApply(i) == \E c \in Pick({d \in WrongCalls(x[i].k) : d[1][1] \notin {"for-each", "dynamic-wind", "call-with-values", "catch", "call/cc", "apply", "map"}}) : LET s == c[1] q == c[2] IN
  Refused(Call("apply", <<s[1], Call("list", [j \in DOMAIN s[2] |-> IF j = q THEN XV(i) ELSE Operand(s[2][j])])>>), "error")
DoCallIt(i) == x[i].k \notin Procedures /\ \E how \in Pick({<<"(", " 1)">>, <<"(", ")">>, <<"(apply ", " '(1))">>, <<"(map ", " '(1 2))">>, <<"(for-each ", " '(1 2))">>, <<"((car (list ", ")) (set! ran 0))">>}) :
  Refused(Join(how, XV(i), 1), "error")
\* numbers no builtin takes there: no index, length, character or radix is negative or that large
NoSize == {"-1", "-4294967295", "-2147483648", "-9223372036854775808", "9223372036854775807", "4611686018427387904", "2305843009213693952", "2305843009213693953"}
NoIndex == NoSize \cup {"4294967296", "4294967297", "4294967298", "4294967306", "2147483648", "65536", "256", "1000"}
Sizes == {<<"make-vector", <<"%">>>>, <<"make-vector", <<"%", "any">>>>, <<"make-string", <<"%", "char">>>>, <<"make-hash-table", <<"%">>>>}
Indices == {<<"vector-ref", <<"vec", "%">>>>, <<"vector-set!", <<"vec", "%", "any">>>>, <<"string-ref", <<"str", "%">>>>, <<"string-set!", <<"str", "%", "char">>>>, <<"substring", <<"str", "%", "%">>>>, <<"substring", <<"str", "0", "%">>>>,
            <<"list-ref", <<"list", "%">>>>, <<"list-tail", <<"list", "%">>>>, <<"list-head", <<"list", "%">>>>, <<"integer->char", <<"%">>>>, <<"number->string", <<"int", "%">>>>, <<"string->number", <<"str", "%">>>>}
Zeros == {<<"quotient", <<"any", "0">>>>, <<"remainder", <<"any", "0">>>>, <<"modulo", <<"any", "0">>>>, <<"/", <<"any", "0">>>>, <<"/", <<"0">>>>}
DoOutside(i) == \E c \in Pick({<<s, t>> : s \in Sizes, t \in NoSize} \cup {<<s, t>> : s \in Indices, t \in NoIndex} \cup {<<s, "0">> : s \in Zeros}), app \in Pick(BOOLEAN) :
  LET as == [j \in DOMAIN c[1][2] |-> LET o == c[1][2][j] IN IF o = "%" THEN c[2] ELSE IF o = "0" THEN o ELSE IF x[i].k = Sample(o) THEN XV(i) ELSE Operand(o)]
  IN Refused(IF app THEN Call("apply", <<c[1][1], Call("list", as)>>) ELSE Call(c[1][1], as), "error")
\* ---------------------------------------------------------------------- names
Names == {"n1", "n2", "n3"}
DoDefine == \E nm \in Pick(Names), how \in Pick({<<"(define ", " 1)">>, <<"(define (", " . r) 1)">>, <<"(begin (define ", " #f))">>, <<"(define-macro (", " . r) 1)">>}) :
  /\ UNCHANGED x /\ names' = names \cup {nm} /\ Do("!!" \o Join(how, nm, 1), "")
DoDefined == \E nm \in Pick(Names), how \in Pick({<<"(defined? '", ")">>, <<"(let ((", " 1)) (defined? '", "))">>, <<"((lambda (", ") (defined? '", ")) 1)">>, <<"(apply defined? '(", "))">>, <<"(let () (define ", " 1) (defined? '", "))">>, <<"(car (map defined? '(", ")))">>}) :
  Ask("(list " \o Join(how, nm, 1) \o " (defined? 'car))", "(" \o BoolText(nm \in names) \o " #t)")

Init == x = [i \in V |-> [k |-> "int", n |-> 0]] /\ names = {} /\ hist = [i \in V |-> <<"!!(define " \o XV(i) \o " 5)", "">>]
Next == (Sim \/ Len(hist) < MaxLen + NVar) /\ \E op \in Pick(Ops), i \in Pick(V) :
  CASE op = "new" -> DoNew(i) [] op = "change" -> (IF Sim /\ ~(x[i].k \in Mutable /\ x[i].n < MaxChange) THEN DoNew(i) ELSE DoChange(i)) [] op = "test" -> DoTest(i) [] op = "wrong" -> DoWrong(i) [] op = "count" -> DoCount(i) [] op = "apply" -> DoApply(i) [] op = "call" -> (IF Sim /\ x[i].k \in Procedures THEN DoTest(i) ELSE DoCallIt(i))
    [] op = "outside" -> DoOutside(i) [] op = "define" -> DoDefine [] OTHER -> DoDefined
View == <<x, names>>
Bound == TRUE
Inv == \A i \in V : x[i].k \in All /\ x[i].n \in 0..MaxChange /\ (x[i].n = 0 \/ x[i].k \in Mutable)
\* what is refused changes nothing, and names stay defined
Stays == [][names \subseteq names' /\ \A i \in V : x'[i] # x[i] => \/ x'[i].n = 0 \/ x'[i] = [x[i] EXCEPT !.n = @ + 1]]_vars
\* the type predicates tell the kinds apart: no value is of two of these
Disjoint == LET D == {"boolean?", "char?", "string?", "symbol?", "number?", "null?", "pair?", "vector?", "procedure?", "eof-object?", "input-port?", "output-port?", "variable?", "module?"}
            IN \A p \in D, q \in D : p # q => True(p) \cap True(q) = {}
ASSUME Disjoint
=============================================================================
