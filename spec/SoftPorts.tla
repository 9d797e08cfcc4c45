----------------------------- MODULE SoftPorts ------------------------------
(***************************************************************************)
(* Soft ports (C26).  The log is what reached the port's procedures: the   *)
(* characters written, the flushes and the closing, in order.  The source  *)
(* is what its input procedure still delivers, with "boom" where it or an  *)
(* output procedure throws.                                                *)
(***************************************************************************)
EXTENDS CharReader

CONSTANTS NPort, Texts, Values, Chars, Modes, Ops, MaxLen, Sim

VARIABLES ports, cur
vars == <<ports, cur, hist>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
\* procs: which procedures there are, 1 character, 2 string, 3 flush, 4 input, 5 close
\* source: characters (codes), -1 where the procedure throws, -2 where it gives #f or the end-of-file object
\* allow: how many calls of output procedures go well before one throws (-1: all)
NoPort == [mode |-> "", procs |-> {}, source |-> <<>>, peeked |-> <<>>, open |-> FALSE, log |-> <<>>, allow |-> -1]
P(k) == "p" \o Str(k)
Ints(s) == [i \in DOMAIN s |-> Str(s[i])]
StrOf(s) == "(s " \o Words(Ints(s)) \o ")"
CharText(c) == "#\\" \o Str(c)
Reads(p) == p.mode \in {"r", "rw"}
Writes(p) == p.mode \in {"w", "rw"}
InUse == {k \in 1..NPort : ports[k].mode # ""}
InNames(k) == {" " \o P(k)} \cup (IF cur.in = k THEN {"", " (current-input-port)"} ELSE {})
OutNames(k) == {" " \o P(k)} \cup (IF cur.out = k THEN {"", " (current-output-port)"} ELSE {})
LogText(p) == ListText(p.log)

\* an operation on port k leaves p, gives exp; the log is looked at then
After(k, p, op, exp) == /\ ports' = [ports EXCEPT ![k] = p]
                        /\ UNCHANGED cur
                        /\ Do("(with-log " \o Str(k) \o " (lambda () " \o op \o "))", "(" \o exp \o " " \o LogText(p) \o ")")

\* input.  One character: the port after it, "eof", "err" or the code
One(p) == IF ~p.open THEN [p |-> p, c |-> "eof", code |-> 0]
          ELSE IF p.peeked # <<>> THEN [p |-> [p EXCEPT !.peeked = <<>>], c |-> "ok", code |-> p.peeked[1]]
          ELSE IF 4 \notin p.procs \/ p.source = <<>> THEN [p |-> p, c |-> "eof", code |-> 0]
          ELSE LET c == Head(p.source) q == [p EXCEPT !.source = Tail(@)]
               IN IF c = -1 THEN [p |-> q, c |-> "err", code |-> 0] ELSE IF c = -2 THEN [p |-> q, c |-> "eof", code |-> 0] ELSE [p |-> q, c |-> "ok", code |-> c]
OneText(r) == CASE r.c = "ok" -> CharText(r.code) [] r.c = "eof" -> "#eof" [] OTHER -> Err
DoReadChar(k) == Reads(ports[k]) /\ \E n \in Pick(InNames(k)) : LET r == One(ports[k]) IN After(k, r.p, "(read-char" \o n \o ")", OneText(r))
DoPeekChar(k) == Reads(ports[k]) /\ \E n \in Pick(InNames(k)) : LET r == One(ports[k]) IN After(k, IF r.c = "ok" THEN [r.p EXCEPT !.peeked = <<r.code>>] ELSE r.p, "(peek-char" \o n \o ")", OneText(r))
\* a datum: only from what comes before the next interruption; if it needs more than that, that is not claimed
Plain(s) == LET I == {i \in DOMAIN s : s[i] < 0} IN IF I = {} THEN Len(s) ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
DoRead(k) == LET p == ports[k] n == Plain(p.source) ahead == p.peeked \o Upto(p.source, n)
                 d == IF p.open /\ (4 \in p.procs) THEN ReadDatum(ahead) ELSE IF p.open THEN ReadDatum(p.peeked) ELSE Not("eof")
             IN /\ Reads(p) /\ p.peeked = <<>> /\ d.st \in {"ok", "eof"}
                \* the character after an atom has been looked at
                /\ \/ d.st = "eof" /\ (p.open /\ 4 \in p.procs => n = Len(p.source)) /\ \E a \in Pick(InNames(k)) : After(k, IF p.open /\ 4 \in p.procs THEN [p EXCEPT !.source = <<>>] ELSE p, "(read" \o a \o ")", "#eof")
                   \/ d.st = "ok" /\ (d.rest # <<>> \/ n = Len(p.source)) /\ \E a \in Pick(InNames(k)) :
                        After(k, [p EXCEPT !.source = From(@, n - Len(d.rest))], "(read" \o a \o ")", d.t)
\* the source gets more characters
DoFeed(k) == \E t \in Pick(Texts) : After(k, [ports[k] EXCEPT !.source = @ \o t], "(feed " \o Str(k) \o " '" \o ListText(Ints(t)) \o ")", "fed")

\* output: the calls of procedures, each a sequence of codes, until one throws
RECURSIVE Calls(_, _)
Calls(p, cs) == IF cs = <<>> THEN [p |-> p, e |-> "ok"]
                ELSE IF p.allow = 0 THEN [p |-> [p EXCEPT !.allow = -1], e |-> Err]
                ELSE Calls([p EXCEPT !.log = @ \o Head(cs), !.allow = IF @ > 0 THEN @ - 1 ELSE @], Tail(cs))
Singles(codes) == [i \in DOMAIN codes |-> <<Str(codes[i])>>]
TextCalls(p, codes) == IF 2 \in p.procs THEN <<Ints(codes)>> ELSE IF 1 \in p.procs THEN Singles(codes) ELSE <<>>
CharCalls(p, c) == IF 1 \in p.procs \/ 2 \in p.procs THEN <<(<<Str(c)>>)>> ELSE <<>>
Output(k, calls, op) == LET p == ports[k] r == Calls(p, IF p.open THEN calls ELSE <<>>)
                        IN Writes(p) /\ After(k, r.p, "(begin " \o op \o " 'ok)", r.e)
DoWriteChar(k) == \E c \in Pick(Chars), n \in Pick(OutNames(k)) : Output(k, CharCalls(ports[k], c), "(write-char (integer->char " \o Str(c) \o ")" \o n \o ")")
DoNewline(k) == \E n \in Pick(OutNames(k)) : Output(k, CharCalls(ports[k], 10), "(newline" \o n \o ")")
DoDisplay(k) == \E v \in Pick(Values), n \in Pick(OutNames(k)) : v[2] # <<>> /\ Output(k, TextCalls(ports[k], v[2]), "(display " \o v[1] \o n \o ")")
DoWrite(k) == \E v \in Pick(Values), n \in Pick(OutNames(k)) : Output(k, TextCalls(ports[k], v[3]), "(write " \o v[1] \o n \o ")")
DoFlush(k) == \E n \in Pick(OutNames(k)) : Output(k, IF 3 \in ports[k].procs THEN <<(<<"flush">>)>> ELSE <<>>, "(force-output" \o n \o ")")
\* the output procedures of port k throw after n calls
DoTrouble(k) == \E n \in Pick(0..3) : After(k, [ports[k] EXCEPT !.allow = n], "(trouble " \o Str(k) \o " " \o Str(n) \o ")", "set")
DoClose(k) == LET p == ports[k] r == Calls(p, IF p.open /\ 5 \in p.procs THEN <<(<<"close">>)>> ELSE <<>>)
              IN \E op \in Pick((IF Reads(p) THEN {"close-input-port"} ELSE {}) \cup (IF Writes(p) THEN {"close-output-port"} ELSE {})) :
                   After(k, IF r.e = Err THEN r.p ELSE [r.p EXCEPT !.open = FALSE, !.peeked = <<>>], "(begin (" \o op \o " " \o P(k) \o ") 'ok)", r.e)

\* making one
DoMake(k) == /\ cur.in # k /\ cur.out # k
             /\ \E m \in Pick(Modes), ps \in Pick(SUBSET (1..5)), n \in Pick({5, 6}) :
                  /\ ports' = [ports EXCEPT ![k] = [NoPort EXCEPT !.mode = m, !.procs = ps, !.open = TRUE]]
                  /\ UNCHANGED cur
                  /\ Do("(begin (set! " \o P(k) \o " (make " \o Str(k) \o " '" \o ListText([i \in 1..5 |-> BoolText(i \in ps)]) \o " " \o Str(n) \o " \"" \o m \o "\")) (list (input-port? " \o P(k) \o ") (output-port? " \o P(k) \o ")))",
                        "(" \o BoolText(m \in {"r", "rw"}) \o " " \o BoolText(m \in {"w", "rw"}) \o ")")
DoSetIn == \E k \in Pick({j \in InUse : Reads(ports[j])} \cup {0}) : LET n == IF k = 0 THEN "std-in" ELSE P(k)
           IN /\ cur' = [cur EXCEPT !.in = k]
              /\ UNCHANGED ports
              /\ Do("(let* ((old (current-input-port)) (was (set-current-input-port " \o n \o "))) (list (eq? old was) (eq? (current-input-port) " \o n \o ")))", "(#t #t)")
DoSetOut == \E k \in Pick({j \in InUse : Writes(ports[j])} \cup {0}) : LET n == IF k = 0 THEN "std-out" ELSE P(k)
            IN /\ cur' = [cur EXCEPT !.out = k]
               /\ UNCHANGED ports
               /\ Do("(let* ((old (current-output-port)) (was (set-current-output-port " \o n \o "))) (list (eq? old was) (eq? (current-output-port) " \o n \o ")))", "(#t #t)")
Wrongs == {"(make-soft-port 'a \"r\")", "(make-soft-port (vector #f #f #f #f) \"r\")", "(make-soft-port (make-vector 7 #f) \"w\")", "(make-soft-port (make-vector 5 #f) \"x\")", "(make-soft-port (make-vector 5 #f) 'r)", "(make-soft-port (make-vector 5 #f))"}
          \cup UNION {IF ~Writes(ports[k]) THEN {"(write-char #\\a " \o P(k) \o ")", "(display 1 " \o P(k) \o ")", "(close-output-port " \o P(k) \o ")", "(set-current-output-port " \o P(k) \o ")", "(force-output " \o P(k) \o ")"} ELSE {} : k \in InUse}
          \cup UNION {IF ~Reads(ports[k]) THEN {"(read-char " \o P(k) \o ")", "(peek-char " \o P(k) \o ")", "(read " \o P(k) \o ")", "(close-input-port " \o P(k) \o ")", "(set-current-input-port " \o P(k) \o ")"} ELSE {} : k \in InUse}
DoWrong == \E w \in Pick(Wrongs) : UNCHANGED <<ports, cur>> /\ Do(w, Err)
DoLook == UNCHANGED <<ports, cur>> /\ Do("(list (log-of 1) " \o (IF NPort > 1 THEN "(log-of 2))" ELSE "'())"), "(" \o LogText(ports[1]) \o " " \o (IF NPort > 1 THEN LogText(ports[2]) ELSE "()") \o ")")

Init == ports = [k \in 1..NPort |-> NoPort] /\ cur = [in |-> 0, out |-> 0] /\ hist = <<>>
Step(op) == CASE op = "make" -> \E k \in Pick(1..NPort) : DoMake(k)
              [] op = "set-in" -> DoSetIn
              [] op = "set-out" -> DoSetOut
              [] op = "wrong" -> DoWrong
              [] op = "look" -> DoLook
              [] OTHER -> \E k \in Pick(InUse) : CASE op = "read-char" -> DoReadChar(k) [] op = "peek-char" -> DoPeekChar(k) [] op = "read" -> DoRead(k) [] op = "feed" -> DoFeed(k)
                                                    [] op = "write-char" -> DoWriteChar(k) [] op = "newline" -> DoNewline(k) [] op = "display" -> DoDisplay(k) [] op = "write" -> DoWrite(k)
                                                    [] op = "flush" -> DoFlush(k) [] op = "trouble" -> DoTrouble(k) [] OTHER -> DoClose(k)
Next == (Sim \/ Len(hist) < MaxLen) /\ \E op \in (IF Sim THEN {Ops[RandomElement(DOMAIN Ops)], Ops[RandomElement(DOMAIN Ops)], "look"} ELSE {Ops[i] : i \in DOMAIN Ops}) : Step(op)
View == <<ports, cur>>
Bound == TRUE
Inv == \A k \in 1..NPort : LET p == ports[k]
       IN /\ Len(p.peeked) <= 1 /\ (p.peeked # <<>> => Reads(p) /\ 4 \in p.procs)
          /\ \A i \in DOMAIN p.log : p.log[i] = "close" => 5 \in p.procs
          /\ ~(1 \in p.procs \/ 2 \in p.procs) => \A i \in DOMAIN p.log : p.log[i] \in {"flush", "close"}
          \* closed once
          /\ Cardinality({i \in DOMAIN p.log : p.log[i] = "close"}) <= (IF p.open THEN 0 ELSE 1)
\* what was written before stays written, and nothing is written after the port is closed
Mono == [][\A k \in 1..NPort : ports'[k].log = <<>> \/ (/\ Upto(ports'[k].log, Len(ports[k].log)) = ports[k].log
                                                       /\ ports[k].mode # "" /\ ~ports[k].open => ports'[k].log = ports[k].log)]_vars
=============================================================================
