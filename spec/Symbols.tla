------------------------------ MODULE Symbols ------------------------------
(***************************************************************************)
(* Symbols (C28).  Variables x1..xn hold symbols: a symbol is its name, a  *)
(* sequence of character codes, or the n-th gensym.  Symbols are made in   *)
(* every way there is, and then compared in every way there is.            *)
(***************************************************************************)
EXTENDS Path

CONSTANTS NVar, Codes, Plain, Ops, MaxName, MaxLen, Sim
\* Plain: {<<text, codes>>, ...}: names that can be written as they are

VARIABLES x,      \* variable -> symbol
          gens,   \* gensyms so far
          kept    \* how many of them many keeps
vars == <<x, gens, kept, hist>>

V == 1..NVar
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
XV(i) == "x" \o Str(i)
IsGen(s) == Len(s) = 2 /\ s[1] = -1
Gen(n) == <<-1, n>>
Codestr(s) == Words([k \in 1..Len(s) |-> Str(s[k])])
Fresh(s) == "(s" \o (IF Len(s) > 0 THEN " " ELSE "") \o Codestr(s) \o ")"
AllVars == Words([i \in V |-> XV(i)])

\* what (same x1 .. xn) says: for each symbol, those it is the same as, asked eq?, eqv? and equal?
Same(y) == ListText([i \in V |-> "(" \o Words([j \in V |-> IF y[i] = y[j] THEN "1" ELSE "0"]) \o ")"])
\* every step ends with it
Step(i, e, s) ==
  /\ Len(s) <= MaxName
  /\ UNCHANGED kept
  /\ x' = [x EXCEPT ![i] = s]
  /\ Do("(begin (set! " \o XV(i) \o " " \o e \o ") (same " \o AllVars \o "))", Same(x'))
See(e, shown) == UNCHANGED <<x, gens, kept>> /\ Do(e, shown)

Name == IF Sim THEN {[k \in 1..RandomElement(0..5) |-> RandomElement(Codes)]} ELSE UNION {[1..n -> Codes] : n \in 0..2}
\* ------------------------------------------------------------------- making
DoQuote(i) == \E p \in Pick(Plain), how \in Pick({"quote", "'", "list", "vector", "quasi", "macro", "nested"}) : ~(how = "quasi" /\ p[1] = "unquote") /\
  /\ UNCHANGED gens
  /\ Step(i, CASE how = "quote" -> "(quote " \o p[1] \o ")" [] how = "'" -> "'" \o p[1] [] how = "list" -> "(cadr '(zz " \o p[1] \o "))"
               [] how = "vector" -> "(vector-ref '#(1 " \o p[1] \o ") 1)" [] how = "quasi" -> "(car `(" \o p[1] \o " ,x1))"
               [] how = "macro" -> "(the-name " \o p[1] \o ")" [] OTHER -> "(cdr (car '((1 . " \o p[1] \o "))))", p[2])
DoRead(i) == \E p \in Pick(Plain), how \in Pick({"read", "list", "tail"}) :
  /\ UNCHANGED gens
  /\ Step(i, CASE how = "read" -> "(read (open-input-string \"" \o p[1] \o "\"))" [] how = "list" -> "(car (read (open-input-string \"(" \o p[1] \o ")\")))"
               [] OTHER -> "(cdr (read (open-input-string \"(a . " \o p[1] \o ") b\")))", p[2])
DoIntern(i) == \E s \in Name : UNCHANGED gens /\ Step(i, "(string->symbol " \o Fresh(s) \o ")", s)
\* the name of another symbol, through its string
DoTrip(i) == \E j \in Pick(V) : ~IsGen(x[j]) /\ UNCHANGED gens /\ Step(i, "(string->symbol (symbol->string " \o XV(j) \o "))", x[j])
DoAppend(i) == \E j \in Pick(V), k \in Pick(V) : /\ ~IsGen(x[j]) /\ ~IsGen(x[k]) /\ UNCHANGED gens
  /\ Step(i, "(string->symbol (string-append (symbol->string " \o XV(j) \o ") (symbol->string " \o XV(k) \o ")))", x[j] \o x[k])
DoGensym(i) == gens' = gens + 1 /\ Step(i, "(gensym)", Gen(gens + 1))
\* many of them, kept in a table; none is there yet, nor a symbol of the program
DoMany == \E n \in Pick({1, 9, 120, 1300} \cup (IF Sim THEN {} ELSE IF MaxLen = 1 THEN {40000} ELSE {})) :
  /\ UNCHANGED x /\ gens' = gens + n /\ kept' = kept + n
  /\ Do("(many " \o Str(n) \o " " \o AllVars \o ")", "(" \o Str(kept + n) \o (IF \E i \in V : IsGen(x[i]) THEN " ?" ELSE " 0") \o ")")
\* through a place
DoCarry(i) == \E j \in Pick(V), how \in Pick({"set", "list", "table", "key", "port", "call", "promise"}) : /\ UNCHANGED gens
  /\ Step(i, CASE how = "set" -> XV(j) [] how = "list" -> "(car (list " \o XV(j) \o "))"
               [] how = "table" -> "(let ((h (make-hash-table 3))) (hash-set! h 1 " \o XV(j) \o ") (hash-ref h 1))"
               [] how = "key" -> "(let ((h (make-hash-table 3))) (hash-set! h " \o XV(j) \o " 1) (hash-fold (lambda (k v o) k) #f h))"
               [] how = "call" -> "((lambda (a . b) (car b)) 1 " \o XV(j) \o ")" [] how = "promise" -> "(force (delay " \o XV(j) \o "))"
               [] OTHER -> "(call-with-values (lambda () (values 1 " \o XV(j) \o ")) (lambda (a b) b))", x[j])
\* changing the string a symbol came from, or was turned into, does not change it
DoMutate(i) == \E s \in Name, c \in Pick(Codes) : Len(s) > 0 /\ UNCHANGED gens
  /\ Step(i, "(let* ((t " \o Fresh(s) \o ") (y (string->symbol t))) (string-set! t 0 (integer->char " \o Str(c) \o ")) y)", s)
DoMutateName(i) == \E j \in Pick(V), c \in Pick(Codes) : ~IsGen(x[j]) /\ Len(x[j]) > 0 /\ UNCHANGED gens
  /\ Step(i, "(let ((t (symbol->string " \o XV(j) \o "))) (string-set! t 0 (integer->char " \o Str(c) \o ")) (string->symbol t))", [x[j] EXCEPT ![1] = c])

\* ------------------------------------------------------------------- asking
First(j) == CHOOSE k \in V : x[k] = x[j] /\ \A l \in V : x[l] = x[j] => l >= k
DoName == \E j \in Pick(V) : ~IsGen(x[j]) /\ See("(codes (symbol->string " \o XV(j) \o "))", "(" \o Codestr(x[j]) \o ")")
DoCase == \E j \in Pick(V) : \E p \in Pick(Plain), q \in Pick(Plain) : p[2] # q[2] /\
  See("(case " \o XV(j) \o " ((1 #\\a " \o p[1] \o ") 'first) ((" \o q[1] \o ") 'second) (else 'none))", IF x[j] = p[2] THEN "first" ELSE IF x[j] = q[2] THEN "second" ELSE "none")
DoIs == \E j \in Pick(V), p \in Pick(Plain) : See("(list (eq? " \o XV(j) \o " '" \o p[1] \o ") (eqv? '" \o p[1] \o " " \o XV(j) \o "))", LET b == BoolText(x[j] = p[2]) IN "(" \o b \o " " \o b \o ")")
DoSearch == \E j \in Pick(V) : See("(found " \o XV(j) \o " (list " \o AllVars \o "))", LET f == Str(First(j)) IN ListText([k \in 1..9 |-> f]))
DoCount == See("(distinct (list " \o AllVars \o "))", LET n == Str(Cardinality({x[i] : i \in V})) IN ListText(<<n, n, n>>))
DoText == \E p \in Pick(Plain), j \in Pick(V) : See("(list (eq? " \o XV(j) \o " \"" \o p[1] \o "\") (equal? \"" \o p[1] \o "\" " \o XV(j) \o ") (symbol? " \o XV(j) \o ") (string? " \o XV(j) \o ") (symbol? (symbol->string " \o XV(j) \o ")))", "(#f #f #t #f #f)")

Asks == {"name", "case", "is", "search", "count", "text"}
Init == x = [i \in V |-> <<113>>] /\ gens = 0 /\ kept = 0 /\ hist = [i \in V |-> <<"!!(define " \o XV(i) \o " 'q)", "">>]
Next == (Sim \/ Len(hist) < MaxLen + NVar) /\ \E op \in (IF Sim THEN {RandomElement(Ops), "search"} ELSE Ops), i \in Pick(V) : (Sim \/ op \notin Asks \/ i = 1) /\
  CASE op = "quote" -> DoQuote(i) [] op = "read" -> DoRead(i) [] op = "intern" -> DoIntern(i) [] op = "trip" -> DoTrip(i) [] op = "append" -> DoAppend(i) [] op = "gensym" -> DoGensym(i) [] op = "many" -> i = 1 /\ DoMany
    [] op = "carry" -> DoCarry(i) [] op = "mutate" -> DoMutate(i) [] op = "mutname" -> DoMutateName(i)
    [] op = "name" -> DoName [] op = "case" -> DoCase [] op = "is" -> DoIs [] op = "search" -> DoSearch [] op = "count" -> DoCount [] OTHER -> DoText
View == <<x, kept>>
Bound == TRUE
Inv == \A i \in V : Len(x[i]) <= MaxName
=============================================================================
