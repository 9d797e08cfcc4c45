------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* The option interfaces (C27): read options and debug options.  A state   *)
(* gives every option its value: a truth value, a number or an object.     *)
(* A list of options replaces the truth values, and the other values it    *)
(* gives; nothing changes if the list has an error in it.                  *)
(***************************************************************************)
EXTENDS Path

CONSTANTS Faces, Values, Numbers, Ops, MaxLen, Sim

VARIABLE opt  \* face -> option -> value (as text)
vars == <<opt, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
\* in the order of the report
Order(f) == IF f = "read" THEN <<"keywords", "case-insensitive", "positions", "copy">>
            ELSE <<"warn-deprecated", "show-file-name", "stack", "debug", "backtrace", "depth", "maxdepth", "frames", "indent", "width", "backwards", "procnames", "trace", "breakpoints", "cheap">>
Names(f) == {Order(f)[i] : i \in DOMAIN Order(f)}
Objs == {"keywords", "show-file-name"}
Ints == {"stack", "depth", "maxdepth", "frames", "indent", "width"}
Bool(n) == n \notin Objs \cup Ints
First == [f \in {"read", "debug"} |-> IF f = "read" THEN [n \in Names(f) |-> IF n = "positions" THEN "#t" ELSE "#f"]
          ELSE [n \in Names(f) |-> CASE n = "stack" -> "20000" [] n = "depth" -> "20" [] n = "maxdepth" -> "1000" [] n = "frames" -> "3" [] n = "indent" -> "10" [] n = "width" -> "79"
                                     [] n \in {"show-file-name", "procnames", "cheap"} -> "#t" [] OTHER -> "#f"]]
ReportOf(f, s) == SelectSeq([i \in DOMAIN Order(f) |-> LET n == Order(f)[i] IN IF Bool(n) THEN (IF s[n] = "#t" THEN n ELSE "") ELSE n \o " " \o s[n]], LAMBDA t : t # "")
Report(f, s) == ListText(ReportOf(f, s))
Face(f) == f \o "-options-interface"

\* an item of a list of options: <<name>>, <<name, value>>; bad: an unknown name, a value missing or of the wrong kind
\* what the items give: the state, or "bad"
Wrong0 == [bad |-> TRUE]
RECURSIVE Given(_, _, _, _)
Given(f, s, l, i) ==
  IF i > Len(l) THEN s
  ELSE LET it == l[i]
       IN IF it[1] \notin Names(f) THEN Wrong0
          ELSE IF Bool(it[1]) THEN Given(f, [s EXCEPT ![it[1]] = IF Len(it) = 2 /\ it[2] = "#f" THEN "#f" ELSE "#t"], l, i + 1)
          ELSE IF Len(it) = 1 THEN Wrong0
          ELSE IF it[1] \in Ints /\ it[2] \notin {Str(k) : k \in Numbers \cup {20000, 20, 1000, 3, 10, 79}} THEN Wrong0
          ELSE Given(f, [s EXCEPT ![it[1]] = it[2]], l, i + 1)
Cleared(f, s) == [n \in Names(f) |-> IF Bool(n) THEN "#f" ELSE s[n]]
\* keeping the source implies recording positions
Closed(f, s) == IF f = "read" /\ s["copy"] = "#t" THEN [s EXCEPT !["positions"] = "#t"] ELSE s
Set(f, s, l) == LET g == Given(f, Cleared(f, s), l, 1) IN IF g = Wrong0 THEN Wrong0 ELSE Closed(f, g)
Current(f, s) == LET os == SelectSeq(Order(f), LAMBDA n : ~Bool(n) \/ s[n] = "#t") IN [i \in DOMAIN os |-> IF Bool(os[i]) THEN <<os[i]>> ELSE <<os[i], s[os[i]]>>]

See2 == "(list (read-options-interface) (debug-options-interface))"
Both(o) == "(" \o Report("read", o["read"]) \o " " \o Report("debug", o["debug"]) \o ")"
\* the expression e sets face f to s (or is an error); its value is the new setting
Change(f, e, s) ==
  IF s = Wrong0 THEN /\ UNCHANGED opt
                    /\ Do("(cons (catch #t (lambda () " \o e \o " 'no-error) (lambda k 'bad)) " \o See2 \o ")", "(bad " \o Report("read", opt["read"]) \o " " \o Report("debug", opt["debug"]) \o ")")
  ELSE /\ opt' = [opt EXCEPT ![f] = s]
       /\ Do("(cons " \o e \o " " \o See2 \o ")", "(" \o Report(f, s) \o " " \o Report("read", opt'["read"]) \o " " \o Report("debug", opt'["debug"]) \o ")")

ValueFor(n) == IF n \in Ints THEN Pick({Str(k) : k \in Numbers}) ELSE IF Bool(n) THEN Pick({"#f", "#t"}) ELSE Pick(Values)
\* names that are near an option's, and the other face's
Strange(f) == ({"bogus", "Copy", "key"} \cup {SubSeq(n, 1, Len(n) - 1) : n \in Names(f)} \cup {SubSeq(n, 1, (Len(n) + 1) \div 2) : n \in Names(f)} \cup {SubSeq(n, 2, Len(n)) : n \in Names(f)}
                \cup {n \o "s" : n \in Names(f)} \cup Names(IF f = "read" THEN "debug" ELSE "read")) \ Names(f)
AnyName(f) == Pick(IF Sim /\ RandomElement(1..8) = 1 THEN Strange(f) ELSE IF Sim THEN Names(f) ELSE Names(f) \cup {"bogus"})
Item(f) == UNION {{<<n>>} \cup {<<n, v>> : v \in ValueFor(n)} : n \in AnyName(f)}
Wrong(f) == {<<n, "#t">> : n \in IF MaxLen = 1 \/ Sim THEN Strange(f) ELSE {}} \cup {<<n, "x">> : n \in Names(f) \cap Ints} \cup {<<"bogus", "1">>}
OneItem(f) == IF Sim /\ RandomElement(1..12) = 1 THEN RandomElement(Wrong(f))
              ELSE LET n == CHOOSE m \in AnyName(f) : TRUE IN IF Bool(n) /\ RandomElement(1..3) > 1 THEN <<n>> ELSE IF RandomElement(1..14) = 1 THEN <<n>> ELSE <<n, CHOOSE v \in ValueFor(n) : TRUE>>
Lists(f) == IF Sim THEN {[k \in 1..RandomElement(1..5) |-> OneItem(f)]} ELSE {<<i>> : i \in Item(f) \cup Wrong(f)} \cup (IF f = "read" THEN {<<i, j>> : i \in Item(f), j \in Item(f)} ELSE {})
\* a value missing in the middle is read as the next name
Clear(f, l) == \A k \in 1..Len(l) : l[k][1] \in Names(f) /\ ~Bool(l[k][1]) /\ Len(l[k]) = 1 => k = Len(l)
ItemText(it) == Words(it)
DoSet(f) == \E l \in Lists(f) : Clear(f, l) /\ Change(f, "(" \o Face(f) \o " '(" \o Words([k \in DOMAIN l |-> ItemText(l[k])]) \o "))", Set(f, opt[f], l))
DoReport(f) == Change(f, "(" \o Face(f) \o ")", opt[f])
\* what a report gave is the caller's
DoSpoil(f) == Change(f, "(let ((r (" \o Face(f) \o ")) (s (" \o Face(f) \o "))) (set-car! (cdr r) 'spoilt) (set-cdr! (cdr r) '()) s)", opt[f])
\* the setting taken from a report
DoAgain(f) == Change(f, "(" \o Face(f) \o " (" \o Face(f) \o "))", opt[f])
DoOne(f) == \E n \in AnyName(f), v \in ValueFor("keywords") \cup ValueFor("width") \cup Pick({"#f", "#t"}) : (n \in Ints \cup Objs \/ v \in {"#f", "#t"}) /\
  Change(f, "(" \o f \o "-set! " \o n \o " (quote " \o v \o "))", Set(f, opt[f], Append(Current(f, opt[f]), <<n, v>>)))
Flags(f) == IF Sim THEN {[k \in 1..RandomElement(1..3) |-> CHOOSE n \in AnyName(f) : TRUE]} ELSE [1..1 -> {n \in AnyName(f) : Bool(n)}]
DoEnable(f) == \E l \in Flags(f) : (\A k \in DOMAIN l : Bool(l[k])) /\
  Change(f, "(" \o f \o "-enable " \o Words([k \in DOMAIN l |-> "'" \o l[k]]) \o ")", Set(f, opt[f], [k \in DOMAIN l |-> <<l[k]>>] \o Current(f, opt[f])))
DoDisable(f) == \E l \in Flags(f) : (\A k \in DOMAIN l : Bool(l[k])) /\
  Change(f, "(" \o f \o "-disable " \o Words([k \in DOMAIN l |-> "'" \o l[k]]) \o ")", Closed(f, [n \in Names(f) |-> IF \E k \in DOMAIN l : l[k] = n THEN "#f" ELSE opt[f][n]]))

Init == opt = First /\ hist = <<>>
Next == (Sim \/ Len(hist) < MaxLen) /\ \E f \in Pick(Faces), op \in (IF Sim THEN {RandomElement(Ops), "report"} ELSE Ops) :
  CASE op = "report" -> DoReport(f) [] op = "spoil" -> DoSpoil(f) [] op = "again" -> DoAgain(f) [] op = "set" -> DoSet(f) [] op = "one" -> DoOne(f) [] op = "enable" -> DoEnable(f) [] OTHER -> DoDisable(f)
View == opt
Bound == TRUE
\* a report taken as a list of options is the setting it reports
Inv == \A f \in DOMAIN opt : Set(f, opt[f], Current(f, opt[f])) = opt[f]
\* a step changes one face
Mono == [][\E f \in DOMAIN opt : \A g \in DOMAIN opt \ {f} : opt'[g] = opt[g]]_vars
=============================================================================
