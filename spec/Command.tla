------------------------------ MODULE Command -------------------------------
(***************************************************************************)
(* The command line (C24): the arguments one after the other, and what the *)
(* command does if they end there: "loop" (the interactive loop), "help",  *)
(* "bad" (a wrong use, or a file that cannot be read: a status other than  *)
(* 0), or it runs the file.                                                *)
(***************************************************************************)
EXTENDS Path

CONSTANTS Good, Broken, MaxLen
\* Good: the scripts; Broken: files that are missing or not Scheme

VARIABLES file, expect, ended
vars == <<file, expect, ended, hist>>

Arg(a, f, e, z, o) == /\ file' = f
                      /\ expect' = e
                      /\ ended' = z
                      /\ hist' = Append(hist, <<a, o>>)
Done(f, e) == IF e \/ f = "" THEN "bad" ELSE IF f \in Good THEN "run " \o f ELSE "bad"
DoSwitch == \E a \in {"-s", "--test"} : ~expect /\ Arg(a, file, TRUE, "", "bad")
\* the argument of a switch is a file whatever it is called
DoFile == \E f \in Good \cup Broken : IF file # "" THEN Arg(f, file, FALSE, "bad", "bad") ELSE Arg(f, f, FALSE, "", Done(f, FALSE))
DoHelp == ~expect /\ \E a \in {"-h", "--help"} : Arg(a, file, expect, "help", "help")
\* the arguments after one that decides are not looked at
DoMore == ended # "" /\ \E a \in Good \cup {"-s"} : Arg(a, file, expect, ended, ended)

Init == file = "" /\ expect = FALSE /\ ended = "" /\ hist = <<>>
Next == IF ended # "" THEN DoMore ELSE DoSwitch \/ DoFile \/ DoHelp
View == <<file, expect, ended, hist>>
Bound == Len(hist) <= MaxLen
Inv == /\ file \in {""} \cup Good \cup Broken
       /\ ended \in {"", "bad", "help"}
       /\ expect => ended = ""
       /\ \A i \in DOMAIN hist : hist[i][2] \in {"bad", "help"} \cup {"run " \o f : f \in Good}
Mono == [][(ended # "" => ended' = ended) /\ (file # "" => file' = file)]_vars
=============================================================================
