------------------------------- MODULE Ports --------------------------------
(***************************************************************************)
(* String and file ports (C17).  An input port is the characters not read  *)
(* yet, an output port the characters written to it; files have the        *)
(* contents that were written out to them.                                 *)
(***************************************************************************)
EXTENDS CharReader

CONSTANTS NIn, NOut, Texts, Values, Chars, Lengths, Ops, MaxLen, Sim
\* Texts: sequences of codes; Values: {<<expression, as displayed, as written>>}; Chars: codes to write; Lengths: lengths of long data (three or more); Ops: a sequence

VARIABLES ins, outs, files, cur
vars == <<ins, outs, files, cur, hist>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Names == {"f1", "f2"}
NoFile == [have |-> FALSE, text |-> <<>>]
InPort(kind, text, f) == [kind |-> kind, rest |-> text, open |-> TRUE, file |-> f]
OutPort(kind, f) == [kind |-> kind, text |-> <<>>, open |-> TRUE, file |-> f]
NoPort == [kind |-> "none", rest |-> <<>>, text |-> <<>>, open |-> FALSE, file |-> ""]
I(k) == "i" \o Str(k)
O(k) == "o" \o Str(k)
Ints(s) == [i \in DOMAIN s |-> Str(s[i])]
IntText(s) == ListText(Ints(s))
StrOf(s) == "(s " \o Words(Ints(s)) \o ")"
CharText(c) == "#\\" \o Str(c)
FileText(f) == "\"" \o f \o "\""

\* the slots in use
Ins == {k \in 1..NIn : ins[k].kind \in {"string", "file"}}
Outs == {k \in 1..NOut : outs[k].kind # "none"}
\* how port k is named in a call: itself, or nothing if it is the current one
InNames(k) == {" " \o I(k)} \cup (IF cur.in = k THEN {"", " (current-input-port)"} ELSE {})
OutNames(k) == {" " \o O(k)} \cup (IF cur.out = k THEN {"", " (current-output-port)"} ELSE {}) \cup (IF cur.err = k THEN {" (current-error-port)"} ELSE {})

\* input: the port after the operation, the value
RestOf(p) == IF p.open THEN p.rest ELSE <<>>
Reading(k, p, op, exp) == /\ ins' = [ins EXCEPT ![k] = p]
                          /\ UNCHANGED <<outs, files, cur>>
                          /\ Do(op, exp)
First(s) == IF s = <<>> THEN "#eof" ELSE CharText(Head(s))
Drop(p) == IF RestOf(p) = <<>> THEN p ELSE [p EXCEPT !.rest = Tail(@)]
DoReadChar(k) == \E n \in Pick(InNames(k)) : Reading(k, Drop(ins[k]), "(read-char" \o n \o ")", First(RestOf(ins[k])))
DoPeekChar(k) == \E n \in Pick(InNames(k)) : Reading(k, ins[k], "(peek-char" \o n \o ")", First(RestOf(ins[k])))
DoReady(k) == Reading(k, ins[k], "(char-ready? " \o I(k) \o ")", BoolText(RestOf(ins[k]) # <<>>))
\* a malformed datum is an error; what it leaves of the port is not claimed
DoRead(k) == LET d == ReadDatum(RestOf(ins[k]))
             IN d.st # "no" /\ \E n \in Pick(InNames(k)) :
                  IF d.st = "bad" THEN Reading(k, [ins[k] EXCEPT !.kind = "dead"], "(read" \o n \o ")", Err)
                  ELSE Reading(k, [ins[k] EXCEPT !.rest = IF ins[k].open THEN d.rest ELSE @], "(read" \o n \o ")", IF d.st = "eof" THEN "#eof" ELSE d.t)
DoCloseIn(k) == \E n \in Pick(InNames(k) \ {""}) : Reading(k, [ins[k] EXCEPT !.open = FALSE], "(begin (close-input-port" \o n \o ") 'ok)", "ok")
\* the rest of the port, one character after the other
DoDrain(k) == Reading(k, [ins[k] EXCEPT !.rest = IF ins[k].open THEN <<>> ELSE @], "(drain " \o I(k) \o ")", IntText(RestOf(ins[k])))

\* output
Writing(k, codes, op) == LET p == outs[k]
                         IN /\ outs' = [outs EXCEPT ![k].text = IF p.open THEN @ \o codes ELSE @]
                            /\ UNCHANGED <<ins, files, cur>>
                            /\ Do("(begin " \o op \o " 'ok)", "ok")
DoWriteChar(k) == \E c \in Pick(Chars), n \in Pick(OutNames(k)) : Writing(k, <<c>>, "(write-char (integer->char " \o Str(c) \o ")" \o n \o ")")
DoNewline(k) == \E n \in Pick(OutNames(k)) : Writing(k, <<10>>, "(newline" \o n \o ")")
\* (texts of a limited length)
Short(k, codes) == Len(codes) < 60 \/ Len(outs[k].text) < 250
DoDisplay(k) == \E v \in Pick(Values), n \in Pick(OutNames(k)) : Short(k, v[2]) /\ Writing(k, v[2], "(display " \o v[1] \o n \o ")")
DoWrite(k) == \E v \in Pick(Values), n \in Pick(OutNames(k)) : Short(k, v[3]) /\ Writing(k, v[3], "(write " \o v[1] \o n \o ")")
\* what one port reads goes to the other
DoCopy(i, o) == /\ ins' = [ins EXCEPT ![i] = Drop(@)]
                /\ outs' = [outs EXCEPT ![o].text = IF outs[o].open /\ RestOf(ins[i]) # <<>> THEN Append(@, Head(RestOf(ins[i]))) ELSE @]
                /\ UNCHANGED <<files, cur>>
                /\ Do("(let ((c (read-char " \o I(i) \o "))) (if (not (eof-object? c)) (write-char c " \o O(o) \o ")) 'ok)", "ok")
Flushed(k) == IF outs[k].kind = "file" /\ outs[k].open THEN [files EXCEPT ![outs[k].file] = [have |-> TRUE, text |-> outs[k].text]] ELSE files
DoFlush(k) == /\ files' = Flushed(k)
              /\ UNCHANGED <<ins, outs, cur>>
              /\ \E n \in Pick(OutNames(k)) : Do("(begin (force-output" \o n \o ") 'ok)", "ok")
DoCloseOut(k) == /\ files' = Flushed(k)
                 /\ outs' = [outs EXCEPT ![k].open = FALSE]
                 /\ UNCHANGED <<ins, cur>>
                 /\ \E n \in Pick(OutNames(k) \ {""}) : Do("(begin (close-output-port" \o n \o ") 'ok)", "ok")
DoGet(k) == /\ UNCHANGED <<ins, outs, files, cur>>
            /\ IF outs[k].kind = "string" THEN Do("(codes (get-output-string " \o O(k) \o "))", IntText(outs[k].text)) ELSE Do("(get-output-string " \o O(k) \o ")", Err)

\* files: not while they are being written, or written while they are read
Writers(f) == {k \in Outs : outs[k].kind = "file" /\ outs[k].file = f /\ outs[k].open}
Readers(f) == {k \in 1..NIn : ins[k].kind \in {"file", "dead"} /\ ins[k].file = f /\ ins[k].open}
Settled(f) == \A k \in Writers(f) : outs[k].text = files[f].text
FreeIn(k) == cur.in # k
FreeOut(k) == cur.out # k /\ cur.err # k /\ (outs[k].kind = "file" => ~outs[k].open)
Opened == "(begin (set! "
DoOpenInString(k) == FreeIn(k) /\ \E t \in Pick(Texts) : /\ ins' = [ins EXCEPT ![k] = InPort("string", t, "")]
                                                         /\ UNCHANGED <<outs, files, cur>>
                                                         /\ Do(Opened \o I(k) \o " (open-input-string " \o StrOf(t) \o ")) (list (input-port? " \o I(k) \o ") (output-port? " \o I(k) \o ")))", "(#t #f)")
DoOpenInFile(k) == FreeIn(k) /\ \E f \in Pick(Names) : IF ~files[f].have THEN UNCHANGED <<ins, outs, files, cur>> /\ Do("(open-input-file " \o FileText(f) \o ")", Err)
                     ELSE Writers(f) = {} /\ /\ ins' = [ins EXCEPT ![k] = InPort("file", files[f].text, f)]
                                        /\ UNCHANGED <<outs, files, cur>>
                                        /\ Do(Opened \o I(k) \o " (open-input-file " \o FileText(f) \o ")) (list (input-port? " \o I(k) \o ") (output-port? " \o I(k) \o ")))", "(#t #f)")
DoOpenOutString(k) == FreeOut(k) /\ /\ outs' = [outs EXCEPT ![k] = OutPort("string", "")]
                                    /\ UNCHANGED <<ins, files, cur>>
                                    /\ Do(Opened \o O(k) \o " (open-output-string)) (list (input-port? " \o O(k) \o ") (output-port? " \o O(k) \o ")))", "(#f #t)")
DoOpenOutFile(k) == FreeOut(k) /\ \E f \in Pick(Names) : Writers(f) = {} /\ Readers(f) = {} /\
                     /\ outs' = [outs EXCEPT ![k] = OutPort("file", f)]
                     /\ files' = [files EXCEPT ![f] = [have |-> TRUE, text |-> <<>>]]
                     /\ UNCHANGED <<ins, cur>>
                     /\ Do(Opened \o O(k) \o " (open-output-file " \o FileText(f) \o ")) (list (input-port? " \o O(k) \o ") (output-port? " \o O(k) \o ")))", "(#f #t)")
DoFile == \E f \in Pick(Names) : files[f].have /\ Settled(f) /\ UNCHANGED <<ins, outs, files, cur>> /\ Do("(file-codes " \o FileText(f) \o ")", IntText(files[f].text))

\* the current ports
DoSetIn == \E k \in Pick(Ins \cup {0}) : LET n == IF k = 0 THEN "std-in" ELSE I(k)
           IN /\ cur' = [cur EXCEPT !.in = k]
              /\ UNCHANGED <<ins, outs, files>>
              /\ Do("(let* ((old (current-input-port)) (was (set-current-input-port " \o n \o "))) (list (eq? old was) (eq? (current-input-port) " \o n \o ") (eq? old " \o n \o ")))", "(#t #t " \o BoolText(k = cur.in) \o ")")
DoSetOut == \E k \in Pick(Outs \cup {0}) : LET n == IF k = 0 THEN "std-out" ELSE O(k)
           IN /\ cur' = [cur EXCEPT !.out = k]
              /\ UNCHANGED <<ins, outs, files>>
              /\ Do("(let* ((old (current-output-port)) (was (set-current-output-port " \o n \o "))) (list (eq? old was) (eq? (current-output-port) " \o n \o ") (eq? old " \o n \o ")))", "(#t #t " \o BoolText(k = cur.out) \o ")")
\* (a port for errors does not take what goes to the current output port, and the other way round)
DoSetErr == \E k \in Pick(Outs \cup {0}) : LET n == IF k = 0 THEN "std-err" ELSE O(k)
           IN /\ cur' = [cur EXCEPT !.err = k]
              /\ UNCHANGED <<ins, outs, files>>
              /\ Do("(let* ((old (current-error-port)) (was (set-current-error-port " \o n \o "))) (list (eq? old was) (eq? (current-error-port) " \o n \o ") (eq? old " \o n \o ") (eq? (current-output-port) " \o n \o ")))",
                    "(#t #t " \o BoolText(k = cur.err) \o " " \o BoolText(k # 0 /\ k = cur.out) \o ")")

\* call-with-...: a few operations on a port of their own
TwoChars(s) == <<First(s), First(IF s = <<>> THEN s ELSE Tail(s))>>
User(s) == LET d == ReadDatum(s) IN IF d.st # "ok" THEN <<"(lambda (p) (list (peek-char p) (read-char p)))", ListText(<<First(s), First(s)>>)>>
           ELSE <<"(lambda (p) (let* ((a (peek-char p)) (b (read p)) (c (peek-char p)) (d (read-char p)) (e (read-char p))) (list a b c d e)))", ListText(<<First(s), d.t, First(d.rest)>> \o TwoChars(d.rest))>>
DoCallInString == \E t \in Pick(Texts) : LET u == User(t) IN UNCHANGED <<ins, outs, files, cur>> /\ Do("(call-with-input-string " \o StrOf(t) \o " " \o u[1] \o ")", u[2])
DoCallInFile == \E f \in Pick(Names) : files[f].have /\ Settled(f) /\ LET u == User(files[f].text) IN UNCHANGED <<ins, outs, files, cur>> /\ Do("(call-with-input-file " \o FileText(f) \o " " \o u[1] \o ")", u[2])
Writer(v, w, c) == "(lambda (p) (write " \o v[1] \o " p) (write-char (integer->char " \o Str(c) \o ") p) (display " \o w[1] \o " p) (newline p) 'done)"
Written(v, w, c) == v[3] \o <<c>> \o w[2] \o <<10>>
DoCallOutString == \E v \in Pick(Values), w \in Pick(Values), c \in Pick(Chars) : UNCHANGED <<ins, outs, files, cur>> /\ Do("(codes (call-with-output-string " \o Writer(v, w, c) \o "))", IntText(Written(v, w, c)))
DoCallOutFile == \E f \in Pick(Names), v \in Pick(Values), w \in Pick(Values), c \in Pick(Chars) : Writers(f) = {} /\ Readers(f) = {} /\
                   /\ files' = [files EXCEPT ![f] = [have |-> TRUE, text |-> Written(v, w, c)]]
                   /\ UNCHANGED <<ins, outs, cur>>
                   /\ Do("(list (call-with-output-file " \o FileText(f) \o " " \o Writer(v, w, c) \o ") (file-codes " \o FileText(f) \o "))", "(done " \o IntText(Written(v, w, c)) \o ")")

\* the wrong kind of port, or none: an error that changes nothing
WrongIn(n) == {"(read-char " \o n \o ")", "(peek-char " \o n \o ")", "(read " \o n \o ")", "(char-ready? " \o n \o ")", "(close-input-port " \o n \o ")", "(set-current-input-port " \o n \o ")"}
WrongOut(n) == {"(write-char #\\a " \o n \o ")", "(display 'a " \o n \o ")", "(write 'a " \o n \o ")", "(newline " \o n \o ")", "(close-output-port " \o n \o ")", "(force-output " \o n \o ")", "(set-current-output-port " \o n \o ")", "(set-current-error-port " \o n \o ")", "(get-output-string " \o n \o ")"}
Wrongs == UNION ({WrongIn(n) : n \in {"'x", "\"f1\"", "5"} \cup {O(k) : k \in Outs}} \cup {WrongOut(n) : n \in {"'x", "\"f1\"", "5"} \cup {I(k) : k \in Ins}})
          \cup {"(write-char \"a\")", "(write-char 97)", "(open-input-string 'a)", "(open-input-file 5)", "(open-output-file 'f1)", "(open-output-file \"no/such/folder\")", "(call-with-input-string 5 read)", "(call-with-input-file \"none\" read)",
                "(call-with-output-string 5)", "(call-with-output-string (lambda (p) (write 'a p) (car '())))", "(call-with-input-string \"abc\" (lambda (p) (read-char p) (throw 'out)))"}
\* all ports at once
Looks == LET a == SelectSeq([k \in 1..NIn |-> k], LAMBDA k : k \in Ins)
             b == SelectSeq([k \in 1..NOut |-> k], LAMBDA k : outs[k].kind = "string")
         IN <<[k \in DOMAIN a |-> "(peek-char " \o I(a[k]) \o ")"] \o [k \in DOMAIN b |-> "(codes (get-output-string " \o O(b[k]) \o "))"],
              [k \in DOMAIN a |-> First(RestOf(ins[a[k]]))] \o [k \in DOMAIN b |-> IntText(outs[b[k]].text)]>>
DoLook == UNCHANGED <<ins, outs, files, cur>> /\ Do(Call("list", Looks[1]), ListText(Looks[2]))
DoWrong == \E w \in Pick(Wrongs) : UNCHANGED <<ins, outs, files, cur>> /\ Do(w, Err)

\* long data: things of n parts, how each is made, and how long it is displayed and written (the parts are z, or the character 0, written \000)
Long(n) == {<<"(make-string " \o Str(n) \o " #\\z)", n, n + 2>>, <<"(make-string " \o Str(n) \o " (integer->char 0))", n, 4 * n + 2>>, <<"(make-string " \o Str(n) \o " #\\\")", n, 2 * n + 2>>,
            <<"(string->symbol (make-string " \o Str(n) \o " #\\z))", n, n>>,
            <<"(vector->list (make-vector " \o Str(n) \o " 'z))", 2 * n + 1, 2 * n + 1>>, <<"(make-vector " \o Str(n) \o " 'z)", 2 * n + 2, 2 * n + 2>>,
            <<"(cons 'z (vector->list (make-vector " \o Str(n - 2) \o " 'z)))", 2 * n - 1, 2 * n - 1>>}
\* two things one after the other, perhaps on the current output port: the lengths of the texts, and what is read back of what was written
Put(w, x, current) == IF current THEN "(let ((old (set-current-output-port p))) (" \o w \o " " \o x \o ") (set-current-output-port old))" ELSE "(" \o w \o " " \o x \o " p)"
Body(w, x, c, y, current) == "(lambda (p) " \o Put(w, x, current) \o " (write-char (integer->char " \o Str(c) \o ") p) " \o Put(w, y, current) \o ")"
DoLong == \E n \in Pick(Lengths), m \in Pick({2, 3} \cup (IF Sim THEN Lengths ELSE {})), current \in Pick(BOOLEAN) : \E a \in Pick(Long(n)), b \in Pick(Long(m)) :
            /\ UNCHANGED <<ins, outs, files, cur>>
            /\ Do("(let* ((a " \o a[1] \o ") (b " \o b[1] \o ") (t (call-with-output-string " \o Body("write", "a", 10, "b", current) \o ")) (u (call-with-output-string " \o Body("display", "b", 97, "a", current)
                     \o "))) (call-with-output-file \"f3\" " \o Body("write", "b", 32, "a", current) \o ") (list (string-length t) (string-length u) (call-with-input-string t (lambda (p) (back a b p))) (call-with-input-file \"f3\" (lambda (p) (back b a p))) (string-ref u " \o Str(b[2]) \o ")))",
                  "(" \o Str(a[3] + b[3] + 1) \o " " \o Str(a[2] + b[2] + 1) \o " (#t #t #t) (#t #t #t) " \o CharText(97) \o ")")

Init == /\ ins = [k \in 1..NIn |-> NoPort]
        /\ outs = [k \in 1..NOut |-> NoPort]
        /\ files = [f \in Names |-> NoFile]
        /\ cur = [in |-> 0, out |-> 0, err |-> 0]
        /\ hist = <<>>
OnIn(op, k) == CASE op = "read-char" -> DoReadChar(k) [] op = "peek-char" -> DoPeekChar(k) [] op = "ready" -> DoReady(k) [] op = "read" -> DoRead(k) [] op = "close-in" -> DoCloseIn(k) [] OTHER -> DoDrain(k)
OnOut(op, k) == CASE op = "write-char" -> DoWriteChar(k) [] op = "newline" -> DoNewline(k) [] op = "display" -> DoDisplay(k) [] op = "write" -> DoWrite(k) [] op = "flush" -> DoFlush(k) [] op = "close-out" -> DoCloseOut(k) [] OTHER -> DoGet(k)
InOps == {"read-char", "peek-char", "ready", "read", "close-in", "drain"}
OutOps == {"write-char", "newline", "display", "write", "flush", "close-out", "get"}
Step(op) == IF op \in InOps THEN \E k \in Pick(Ins) : OnIn(op, k)
            ELSE IF op \in OutOps THEN \E k \in Pick(Outs) : OnOut(op, k)
            ELSE CASE op = "copy" -> \E i \in Pick(Ins), o \in Pick(Outs) : DoCopy(i, o)
                   [] op = "in-string" -> \E k \in Pick(1..NIn) : DoOpenInString(k)
                   [] op = "in-file" -> \E k \in Pick(1..NIn) : DoOpenInFile(k)
                   [] op = "out-string" -> \E k \in Pick(1..NOut) : DoOpenOutString(k)
                   [] op = "out-file" -> \E k \in Pick(1..NOut) : DoOpenOutFile(k)
                   [] op = "file" -> DoFile
                   [] op = "set-in" -> DoSetIn
                   [] op = "set-out" -> DoSetOut
                   [] op = "set-err" -> DoSetErr
                   [] op = "call-in-string" -> DoCallInString
                   [] op = "call-in-file" -> DoCallInFile
                   [] op = "call-out-string" -> DoCallOutString
                   [] op = "call-out-file" -> DoCallOutFile
                   [] op = "look" -> DoLook
                   [] op = "long" -> DoLong
                   [] OTHER -> DoWrong
Next == (Sim \/ Len(hist) < MaxLen) /\ \E op \in (IF Sim THEN {Ops[RandomElement(DOMAIN Ops)], Ops[RandomElement(DOMAIN Ops)], Ops[RandomElement(DOMAIN Ops)], "look"} ELSE {Ops[i] : i \in DOMAIN Ops}) : Step(op)
View == <<ins, outs, files, cur>>
Bound == TRUE
Inv == /\ cur.in = 0 \/ ins[cur.in].kind # "none"
       /\ cur.out = 0 \/ outs[cur.out].kind # "none"
       /\ cur.err = 0 \/ outs[cur.err].kind # "none"
       /\ \A f \in Names : Cardinality(Writers(f)) <= 1 /\ (Writers(f) # {} => Readers(f) = {})
       \* a file has a beginning of what its writer wrote
       /\ \A f \in Names : \A k \in Writers(f) : Upto(outs[k].text, Len(files[f].text)) = files[f].text
\* output ports gain characters at their end, and reading takes characters at the front only
Mono == [][/\ \A k \in 1..NOut : outs'[k].text # <<>> => Upto(outs'[k].text, Len(outs[k].text)) = outs[k].text
           /\ \A k \in 1..NIn : Len(ins'[k].rest) < Len(ins[k].rest) /\ ins'[k].file = ins[k].file /\ ins'[k].rest # <<>> /\ outs' = outs /\ hist' # hist
                                => From(ins[k].rest, Len(ins[k].rest) - Len(ins'[k].rest)) = ins'[k].rest \/ ins'[k].rest \in Texts \/ \E f \in Names : ins'[k].rest = files[f].text]_vars
=============================================================================
