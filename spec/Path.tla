-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* What the component specifications share: `hist`, the operations done so *)
(* far with their expected results, as text, and the operators that write  *)
(* it out so that the path can be replayed on the real interpreter.        *)
(*                                                                         *)
(* A step of a component is <<op, exp>>: the Scheme expression of the      *)
(* operation and the canonical text of its value, "!error" if it throws,   *)
(* or "?" if the value is not claimed.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, CSV

VARIABLE hist

Do(op, exp) == hist' = Append(hist, <<op, exp>>)

\* ACTION_CONSTRAINT of an exhaustive run: every transition, with a shortest path to it
WritePath == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.PATHS)

\* INVARIANT of a random run: the histories of the given length
WriteLong == Len(hist) = atoi(IOEnv.PATHLEN) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.PATHS)

\* text
Str(n) == ToString(n)
RECURSIVE Join(_, _, _)
Join(ss, sep, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o (IF i < Len(ss) THEN sep ELSE "") \o Join(ss, sep, i + 1)
Words(ss) == Join(ss, " ", 1)
Call(f, args) == "(" \o f \o (IF Len(args) = 0 THEN "" ELSE " " \o Words(args)) \o ")"
ListText(ss) == "(" \o Words(ss) \o ")"
BoolText(b) == IF b THEN "#t" ELSE "#f"
Err == "!error"
=============================================================================
