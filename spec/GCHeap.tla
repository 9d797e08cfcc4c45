------------------------------ MODULE GCHeap ------------------------------
(***************************************************************************)
(* The garbage-collected heap (C09): cells, each a place of some kind (a   *)
(* pair, a closure, a hash table, a promise, ...) that holds a body; the   *)
(* body holds a foreign object, whose type registered a free function, and *)
(* two slots for other cells.  A cell is live while it can be reached from *)
(* the roots; a dead one never becomes live again, is freed by collections *)
(* at some time after it died, and once.                                   *)
(*                                                                         *)
(* What a collection frees is a choice of the specification (the collector *)
(* is conservative), so an execution is checked against it: whatever the   *)
(* free function was told must be dead here and not freed before, and the  *)
(* live graph must be exactly the one here.  Execution that only makes     *)
(* garbage leaves this state as it is, and the memory in use is a function *)
(* of this state (Churn).                                                  *)
(***************************************************************************)
EXTENDS Path

CONSTANTS NRoot, MaxCell, Kinds, Holds, Garbage, Ops, MaxLen, Sim

VARIABLES root,  \* root -> cell, 0 for none
          cell,  \* sequence of [kind, slots]
          freed  \* the cells whose free function ran
vars == <<root, cell, freed, hist>>

R == 1..NRoot
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
\* a root that holds a cell
Used == {i \in R : root[i] # 0}
OneUsed(i) == IF Sim /\ Used # {} THEN RandomElement(Used) ELSE i
RV(i) == "r" \o Str(i)

Kids(cs, c) == {cs[c].slots[1], cs[c].slots[2]} \ {0}
RECURSIVE Closure(_, _)
Closure(cs, s) == LET t == s \cup UNION {Kids(cs, c) : c \in s} IN IF t = s THEN s ELSE Closure(cs, t)
Live(rt, cs) == Closure(cs, {rt[i] : i \in R} \ {0})
Dead(rt, cs) == (1..Len(cs)) \ Live(rt, cs)

RECURSIVE SetText(_, _, _)
SetText(s, i, n) == IF i > n THEN "" ELSE (IF i \in s THEN " " \o Str(i) ELSE "") \o SetText(s, i + 1, n)
DeadText == "'(" \o SetText(Dead(root, cell), 1, Len(cell)) \o ")"
RECURSIVE LiveText(_, _, _)
LiveText(cs, l, i) == IF i > Len(cs) THEN "" ELSE (IF i \in l THEN "(" \o Str(i) \o " " \o cs[i].kind \o " " \o Str(cs[i].slots[1]) \o " " \o Str(cs[i].slots[2]) \o ")" ELSE "") \o LiveText(cs, l, i + 1)
Shape(rt, cs) == "(\"" \o Words([i \in R |-> Str(rt[i])]) \o "\" \"" \o LiveText(cs, Live(rt, cs), 1) \o "\")"
See == "(shape " \o Words([i \in R |-> RV(i)]) \o ")"

\* the program changes the roots or a slot; freed by automatic collections in between is checked at the next one
Step(op, rt, cs) ==
  /\ root' = rt /\ cell' = cs /\ UNCHANGED freed
  /\ Do("(begin " \o op \o " " \o See \o ")", Shape(rt, cs))

New(i) == /\ Len(cell) < MaxCell
          /\ \E k \in Pick(Kinds) :
               Step("(set! " \o RV(i) \o " (mk '" \o k \o " " \o Str(Len(cell) + 1) \o "))", [root EXCEPT ![i] = Len(cell) + 1], Append(cell, [kind |-> k, slots |-> <<0, 0>>]))
Drop(i) == root[i] # 0 /\ Step("(set! " \o RV(i) \o " #f)", [root EXCEPT ![i] = 0], cell)
Move(i) == \E j \in Pick(IF Sim /\ Used # {} THEN Used ELSE R) : root[j] # 0 /\ Step("(set! " \o RV(i) \o " " \o RV(j) \o ")", [root EXCEPT ![i] = root[j]], cell)
Link(i) == root[i] # 0 /\ \E j \in Pick(R), s \in Pick({1, 2}) : Step("(put " \o RV(i) \o " " \o Str(s) \o " " \o RV(j) \o ")", root, [cell EXCEPT ![root[i]].slots[s] = root[j]])
Load(i) == \E j \in Pick(IF Sim /\ Used # {} THEN Used ELSE R), s \in Pick({1, 2}) : root[j] # 0 /\ Step("(set! " \o RV(i) \o " (get " \o RV(j) \o " " \o Str(s) \o "))", [root EXCEPT ![i] = cell[root[j]].slots[s]], cell)

\* a collection frees dead cells
Collect == /\ \E s \in SUBSET (IF Sim THEN {} ELSE Dead(root, cell) \ freed) : freed' = freed \cup s
           /\ UNCHANGED <<root, cell>>
           /\ Do("(list (collect " \o DeadText \o ") " \o See \o ")", "(ok " \o Shape(root, cell) \o ")")
\* a collection while root i is held somewhere else
Hold(i) == /\ root[i] # 0 /\ UNCHANGED <<root, cell, freed>>
           /\ \E h \in Pick(Holds) : Do("(let ((%o 'never)) (" \o h \o " " \o RV(i) \o " (set! %o (collect " \o DeadText \o "))) (list %o " \o See \o "))", "(ok " \o Shape(root, cell) \o ")")
\* garbage of some kind, made again and again: the blocks and the memory in use are as before
Churn == /\ UNCHANGED <<root, cell, freed>>
         /\ \E g \in Pick(Garbage) : Do("(list (steady " \o g \o ") " \o See \o ")", "((ok ok) " \o Shape(root, cell) \o ")")
\* the same with the collections the interpreter decides on itself
Auto == /\ UNCHANGED <<root, cell, freed>>
        /\ \E g \in Pick(Garbage) : Do("(list (auto " \o g \o ") " \o See \o ")", "((ok ok) " \o Shape(root, cell) \o ")")

Init == root = [i \in R |-> 0] /\ cell = <<>> /\ freed = {} /\ hist = [i \in R |-> <<"!!(define " \o RV(i) \o " #f)", "">>]
Next == (Sim \/ Len(hist) < MaxLen + NRoot) /\ \E op \in (IF Sim THEN {RandomElement(Ops)} ELSE Ops), i \in Pick(R) : (op \notin {"gc", "churn", "auto"} \/ Sim \/ i = 1) /\
  CASE Sim /\ op \notin {"gc", "churn", "auto", "new"} /\ \A j \in R : root[j] = 0 -> New(i)
    [] op = "new" -> IF Len(cell) < MaxCell THEN New(i) ELSE Collect
    [] op = "drop" -> Drop(OneUsed(i)) [] op = "move" -> Move(i) [] op = "link" -> Link(OneUsed(i)) [] op = "load" -> Load(i)
    [] op = "hold" -> Hold(OneUsed(i)) [] op = "gc" -> Collect [] op = "churn" -> Churn [] OTHER -> Auto
View == <<root, cell>>
Bound == TRUE
\* only what is dead was freed
Inv == freed \subseteq Dead(root, cell)
\* the dead stay dead
Mono == [][Dead(root, cell) \subseteq Dead(root', cell') /\ freed \subseteq freed']_vars
=============================================================================
