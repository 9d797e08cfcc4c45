------------------------------ MODULE LoadPath ------------------------------
(***************************************************************************)
(* Where the files of modules are found (C14): in the directories of       *)
(* %load-path, the first one that has it, or else in the current one; once *)
(* for each module, whatever %load-path is later.  load takes the name of  *)
(* a file as it is, every time.                                            *)
(*                                                                         *)
(* The first steps of a history choose which files there are and what they *)
(* do: every one notes that it is loaded and defines `where`; it may also  *)
(* use another module, load another file, change %load-path or end in an   *)
(* error.                                                                  *)
(***************************************************************************)
EXTENDS Path

CONSTANTS Paths, Entries, FileActs, Ops, NFiles, MaxLen, Sim
\* Paths: the files there may be (a sequence, in the order they are chosen); Entries: what may be in %load-path; FileActs: what files do in an exhaustive run

VARIABLES st, files
vars == <<st, files, hist>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Range(q) == {q[i] : i \in DOMAIN q}
Mods == {"m", "n", "dm"}
Named(m) == CASE m = "n" -> "(lib n)" [] m = "dm" -> "(d1 m)" [] OTHER -> "(m)"
FileOf(m) == CASE m = "n" -> "lib/n.scm" [] m = "dm" -> "d1/m.scm" [] OTHER -> "m.scm"
\* an entry names a directory: the way to it
Way(e) == CASE e \in {"", ".", "./"} -> "" [] e \in {"d1", "d1/", "./d1", "d1//"} -> "d1/" [] e \in {"d2", "d2/"} -> "d2/" [] e \in {"d2/e", "d1/../d2/e/"} -> "d2/e/" [] OTHER -> "absent/"
Quote(t) == "\"" \o t \o "\""
PathText(p) == ListText([i \in DOMAIN p |-> Quote(p[i])])

\* the files of the module, in the order in which they are looked for
Search(s, m) == [i \in 1..Len(s.path) + 1 |-> IF i > Len(s.path) THEN FileOf(m) ELSE Way(s.path[i]) \o FileOf(m)]
FoundFile(s, m) == LET there == {i \in DOMAIN Search(s, m) : Search(s, m)[i] \in DOMAIN files} IN IF there = {} THEN "" ELSE Search(s, m)[CHOOSE i \in there : \A j \in there : i <= j]
Res(s, r) == [s |-> s, r |-> r]
RECURSIVE LoadFile(_, _), Resolve(_, _), Act(_, _)
Act(c, s) == CASE c.k = "use" -> Resolve(s, c.m)
               [] c.k = "load" -> LoadFile(s, c.f)
               [] c.k = "push" -> Res([s EXCEPT !.path = <<c.e>> \o @], "val")
               [] c.k = "pop" -> Res([s EXCEPT !.path = IF @ = <<>> THEN @ ELSE Tail(@)], "val")
               [] c.k = "error" -> Res(s, "err")
               [] OTHER -> Res(s, "val")
LoadFile(s, f) == IF f \notin DOMAIN files THEN Res(s, "err")
                  ELSE Act(files[f], [s EXCEPT !.loads = <<f>> \o @, !.where[s.cur] = f])
Resolve(s, m) == IF m \in s.reg THEN Res(s, "val")
                 ELSE LET f == FoundFile(s, m)
                          s1 == [s EXCEPT !.reg = @ \cup {m}]
                      IN IF f = "" THEN Res(s1, "val")
                         ELSE LET a == LoadFile([s1 EXCEPT !.cur = m], f) IN Res([a.s EXCEPT !.cur = s.cur], a.r)
\* what files do; a file that loads itself again would not end
ActText(c) == CASE c.k = "use" -> "(use-modules " \o Named(c.m) \o ")"
                [] c.k = "load" -> "(load " \o Quote(c.f) \o ")"
                [] c.k = "push" -> "(set! %load-path (cons " \o Quote(c.e) \o " %load-path))"
                [] c.k = "pop" -> "(if (pair? %load-path) (set! %load-path (cdr %load-path)))"
                [] c.k = "error" -> "(car '())"
                [] OTHER -> ""
FileText(f, c) == "(set! %loads (cons " \o Quote(f) \o " %loads))\n(define where " \o Quote(f) \o ")\n" \o ActText(c)
Last(i) == {Paths[j] : j \in 1..(i - 1)}
Acts(i) == LET all(k) == CASE k = "use" -> {[k |-> "use", m |-> m] : m \in Pick(Mods)}
                           [] k = "load" -> {[k |-> "load", f |-> f] : f \in Pick(Last(i))}
                           [] k = "push" -> {[k |-> "push", e |-> e] : e \in Pick(Entries)}
                           [] OTHER -> {[k |-> k]}
           IN UNION {all(k) : k \in IF Sim THEN {<<"no", "no", "use", "use", "load", "push", "pop", "error">>[RandomElement(1..8)]} ELSE FileActs}
DoFile == LET i == Cardinality(DOMAIN files) + st.skipped + 1
          IN /\ i <= NFiles
             /\ \E there \in Pick({TRUE, i = 1}) :
                  IF there
                  THEN \E c \in Acts(i) :
                         /\ files' = [f \in DOMAIN files \cup {Paths[i]} |-> IF f = Paths[i] THEN c ELSE files[f]]
                         /\ hist' = Append(hist, <<"file:" \o Paths[i] \o ":" \o FileText(Paths[i], c), "">>)
                         /\ UNCHANGED st
                  ELSE /\ st' = [st EXCEPT !.skipped = @ + 1]
                       /\ hist' = Append(hist, <<"file:-:", "">>)
                       /\ UNCHANGED files

Step(t, a, v) == /\ st' = a.s
                 /\ UNCHANGED files
                 /\ Do("(begin " \o t \o ")", IF a.r = "err" THEN Err ELSE v)
SeeText(s) == "(" \o PathText(s.path) \o " " \o PathText(s.loads) \o ")"
See == " (list %load-path %loads)"
NewPaths == IF Sim THEN {[i \in 1..RandomElement(0..4) |-> RandomElement(Entries)]} ELSE {<<>>} \cup {<<e>> : e \in Entries} \cup {<<e, g>> : e \in Entries, g \in Entries}
WhereIs(s, m) == IF s.where[m] # "" THEN Quote(s.where[m]) ELSE IF s.where["r"] # "" THEN Quote(s.where["r"]) ELSE "none"
DoOp == \E op \in Pick({Ops[k] : k \in {j \in DOMAIN Ops : Len(hist) > 0}}) :
  CASE op = "path" -> \E p \in NewPaths : LET s == [st EXCEPT !.path = p] IN Step("(set! %load-path '" \o PathText(p) \o ")" \o See, Res(s, "val"), SeeText(s))
    [] op = "cons" -> \E e \in Pick(Entries) : LET s == [st EXCEPT !.path = <<e>> \o @] IN Step("(set! %load-path (cons " \o Quote(e) \o " %load-path))" \o See, Res(s, "val"), SeeText(s))
    [] op = "append" -> \E e \in Pick(Entries) : LET s == [st EXCEPT !.path = @ \o <<e>>] IN Step("(set! %load-path (append %load-path (list " \o Quote(e) \o ")))" \o See, Res(s, "val"), SeeText(s))
    [] op = "use" -> \E m \in Pick(Mods) : LET a == Resolve(st, m) IN Step("(use-modules " \o Named(m) \o ")" \o See, a, SeeText(a.s))
    [] op = "resolve" -> \E m \in Pick(Mods) : LET a == Resolve(st, m) IN Step("(resolve-module '" \o Named(m) \o ")" \o See, a, SeeText(a.s))
    [] op = "where" -> \E m \in Pick(Mods) : LET a == Resolve(st, m) IN Step("(module-ref (resolve-module '" \o Named(m) \o ") 'where 'none)", a, WhereIs(a.s, m))
    [] op = "load" -> \E f \in Pick(Range(Paths)), w \in Pick({"", "./"}) : LET a == LoadFile(st, f) IN Step("(load " \o Quote(w \o f) \o ")" \o See, a, SeeText(a.s))
    [] OTHER -> Step(See, Res(st, "val"), SeeText(st))
Init == /\ st = [path |-> <<>>, reg |-> {}, loads |-> <<>>, where |-> [m \in Mods \cup {"r"} |-> ""], cur |-> "r", skipped |-> 0]
        /\ files = [f \in {} |-> 0]
        /\ hist = <<>>
Chosen == Cardinality(DOMAIN files) + st.skipped = NFiles
Next == DoFile \/ (Chosen /\ (Sim \/ Len(hist) < MaxLen + NFiles) /\ DoOp)
View == <<st, files, Len(hist)>>
Bound == TRUE
\* what is loaded is there, the program stays in its module, and what a module defines comes from a file
Inv == /\ Range(st.loads) \subseteq DOMAIN files
       /\ st.cur = "r"
       /\ \A m \in Mods : st.where[m] # "" => m \in st.reg /\ st.where[m] \in Range(st.loads)
\* a module stays, and the files loaded stay
Mono == [][/\ st.reg \subseteq st'.reg
           /\ \E n \in 0..Len(st'.loads) : st.loads = SubSeq(st'.loads, n + 1, Len(st'.loads))
           /\ \A m \in st.reg : st.where[m] # "" => st'.where[m] = st.where[m]]_vars
=============================================================================
