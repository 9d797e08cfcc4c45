----------------------------- MODULE HashTable -----------------------------
(***************************************************************************)
(* Hash tables as finite maps (C10).  A table maps equivalence classes of  *)
(* keys to associations; an association is a mutable pair that lives on    *)
(* after its removal as long as a handle holds it.                         *)
(*                                                                         *)
(* A key is <<expression, class, text>>; two keys with the same class are  *)
(* the same key under the table's equivalence.  A value is                 *)
(* <<expression, text, text of its tail in a pair>>.                       *)
(***************************************************************************)
EXTENDS Path

CONSTANTS Kind,      \* "hash", "hashv" or "hashq"
          Keys, Vals, NTab, NHan, Sizes, Sim

VARIABLES tab,    \* table -> (class -> association number)
          assoc,  \* sequence of [key, val]
          han     \* handle variable -> association number, 0: #f
vars == <<tab, assoc, han, hist>>

T == 1..NTab
H == 1..NHan
Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
TV(t) == "t" \o Str(t)
HV(h) == "h" \o Str(h)
PairText(a) == "(" \o a.key[3] \o a.val[3]
AText(i) == IF i = 0 THEN "#f" ELSE PairText(assoc[i])

Init ==
  /\ tab = [t \in T |-> <<>>]
  /\ assoc = <<>>
  /\ han = [h \in H |-> 0]
  /\ \E ss \in [T -> Some(Sizes)] :
       hist = [t \in T |-> <<"!!(define t" \o Str(t) \o " (make-hash-table " \o ss[t] \o "))", "">>]
                \o [h \in H |-> <<"!!(define h" \o Str(h) \o " #f)", "">>]

Has(t, k) == k[2] \in DOMAIN tab[t]
At(t, k) == IF Has(t, k) THEN tab[t][k[2]] ELSE 0
NewAssoc(k, v) == Append(assoc, [key |-> k, val |-> v])
Add(t, k, i) == [tab EXCEPT ![t] = (k[2] :> i) @@ tab[t]]

Set(t, k, v) ==
  /\ IF Has(t, k) THEN assoc' = [assoc EXCEPT ![tab[t][k[2]]].val = v] /\ tab' = tab
     ELSE assoc' = NewAssoc(k, v) /\ tab' = Add(t, k, Len(assoc) + 1)
  /\ Do(Call(Kind \o "-set!", <<TV(t), k[1], v[1]>>), v[2])
  /\ UNCHANGED han
Ref(t, k) ==
  /\ Do(Call(Kind \o "-ref", <<TV(t), k[1]>>), IF Has(t, k) THEN assoc[At(t, k)].val[2] ELSE "#f")
  /\ UNCHANGED <<tab, assoc, han>>
Remove(t, k) ==
  /\ tab' = [tab EXCEPT ![t] = [c \in DOMAIN tab[t] \ {k[2]} |-> tab[t][c]]]
  /\ Do("(begin " \o Call(Kind \o "-remove!", <<TV(t), k[1]>>) \o " 'done)", "done")
  /\ UNCHANGED <<assoc, han>>
GetHandle(t, k, h) ==
  /\ han' = [han EXCEPT ![h] = At(t, k)]
  /\ Do("(begin (set! " \o HV(h) \o " " \o Call(Kind \o "-get-handle", <<TV(t), k[1]>>) \o ") " \o HV(h) \o ")", AText(At(t, k)))
  /\ UNCHANGED <<tab, assoc>>
CreateHandle(t, k, v, h) ==
  /\ IF Has(t, k) THEN assoc' = assoc /\ tab' = tab /\ han' = [han EXCEPT ![h] = At(t, k)]
     ELSE assoc' = NewAssoc(k, v) /\ tab' = Add(t, k, Len(assoc) + 1) /\ han' = [han EXCEPT ![h] = Len(assoc) + 1]
  /\ Do("(begin (set! " \o HV(h) \o " " \o Call(Kind \o "-create-handle!", <<TV(t), k[1], v[1]>>) \o ") " \o HV(h) \o ")",
        PairText(IF Has(t, k) THEN assoc[At(t, k)] ELSE [key |-> k, val |-> v]))
SetHandle(h, v) ==
  /\ han[h] # 0
  /\ assoc' = [assoc EXCEPT ![han[h]].val = v]
  /\ Do("(begin (set-cdr! " \o HV(h) \o " " \o v[1] \o ") (cdr " \o HV(h) \o "))", v[2])
  /\ UNCHANGED <<tab, han>>
ReadHandle(h) ==
  /\ Do("(list " \o HV(h) \o ")", "(" \o AText(han[h]) \o ")")
  /\ UNCHANGED <<tab, assoc, han>>
SameHandle(t, k, h) ==
  /\ han[h] # 0
  /\ Do("(eq? " \o HV(h) \o " " \o Call(Kind \o "-get-handle", <<TV(t), k[1]>>) \o ")", BoolText(At(t, k) = han[h]))
  /\ UNCHANGED <<tab, assoc, han>>
FoldCount(t) ==
  /\ Do("(hash-fold (lambda (k v n) (+ n 1)) 0 " \o TV(t) \o ")", Str(Cardinality(DOMAIN tab[t])))
  /\ UNCHANGED <<tab, assoc, han>>
\* what a fold meets under one key
FoldAt(t, k) ==
  /\ Do("(hash-fold (lambda (k v s) (if (equal? k " \o k[1] \o ") (cons v s) s)) '() " \o TV(t) \o ")",
        IF Has(t, k) THEN "(" \o assoc[At(t, k)].val[2] \o ")" ELSE "()")
  /\ Kind = "hash"
  /\ UNCHANGED <<tab, assoc, han>>

Next ==
  \E t \in Some(T), k \in Some(Keys), v \in Some(Vals), h \in Some(H) :
    IF Sim THEN
      \E r \in {RandomElement(1..24)} :
         CASE r <= 8 -> Set(t, k, v)
           [] r <= 11 -> Ref(t, k)
           [] r <= 15 -> Remove(t, k)
           [] r <= 17 -> GetHandle(t, k, h)
           [] r <= 19 -> CreateHandle(t, k, v, h)
           [] r = 20 /\ han[h] # 0 -> SetHandle(h, v)
           [] r = 21 /\ han[h] # 0 -> SameHandle(t, k, h)
           [] r = 22 -> FoldCount(t)
           [] r = 23 /\ Kind = "hash" -> FoldAt(t, k)
           [] OTHER -> ReadHandle(h)
    ELSE \/ Set(t, k, v) \/ Ref(t, k) \/ Remove(t, k) \/ GetHandle(t, k, h) \/ CreateHandle(t, k, v, h)
         \/ SetHandle(h, v) \/ ReadHandle(h) \/ SameHandle(t, k, h) \/ FoldCount(t) \/ FoldAt(t, k)

\* an association number means nothing: where it is, and what it holds
Where(i) == {<<t, c>> \in UNION {{t} \X DOMAIN tab[t] : t \in T} : tab[t][c] = i}
View == <<[t \in T |-> [c \in DOMAIN tab[t] |-> assoc[tab[t][c]].val[2]]],
          [h \in H |-> IF han[h] = 0 THEN <<>> ELSE <<Where(han[h]), PairText(assoc[han[h]])>>],
          [h \in H |-> {g \in H : han[g] = han[h]}]>>
Bound == TRUE

\* no two tables, and no two keys, share an association
Separate == \A t, u \in T : \A c \in DOMAIN tab[t], d \in DOMAIN tab[u] : tab[t][c] = tab[u][d] => t = u /\ c = d
KeyKept == \A t \in T : \A c \in DOMAIN tab[t] : assoc[tab[t][c]].key[2] = c
Inv == Separate /\ KeyKept
=============================================================================
