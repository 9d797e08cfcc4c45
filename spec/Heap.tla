-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Pairs, lists, vectors and association lists as a heap of mutable cells  *)
(* (C11, C12, C23).  Variables x1..xn hold values; every operation is      *)
(* followed by %graph of all variables, which shows contents, sharing and  *)
(* identity of everything that can be reached.                             *)
(*                                                                         *)
(* Values: <<"a", text, expression, equal-class>> atoms, <<"p", loc>>,     *)
(* <<"v", loc>>.  The heap holds <<"pair", car, cdr>> and <<"vec", seq>>.  *)
(***************************************************************************)
EXTENDS Path

CONSTANTS NVar, Atoms, Ops, MaxSize, MaxLen, Sim

VARIABLES x, heap
vars == <<x, heap, hist>>

V == 1..NVar
Pick(S) == IF Sim THEN {RandomElement(S), RandomElement(S)} ELSE S
XV(i) == "x" \o Str(i)
A(text) == <<"a", text, text, text>>
Nil == <<"a", "()", "'()", "()">>
False == A("#f")
True == A("#t")
NumV(n) == A(Str(n))
IsP(v) == v[1] = "p"
IsV(v) == v[1] = "v"
Car(h, v) == h[v[2]][2]
Cdr(h, v) == h[v[2]][3]
Elts(h, v) == h[v[2]][2]

\* ------------------------------------------------------------- the graph
RECURSIVE IndexOf(_, _, _)
IndexOf(s, e, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = e THEN i ELSE IndexOf(s, e, i + 1)
RECURSIVE G(_, _, _), GVec(_, _, _, _)
G(h, v, seen) ==
  IF v[1] = "a" THEN <<v[2], seen>>
  ELSE LET i == IndexOf(seen, v, 1)
       IN IF i # 0 THEN <<"#" \o Str(i), seen>>
          ELSE LET n == Str(Len(seen) + 1)
               IN IF IsP(v) THEN
                    LET a == G(h, Car(h, v), Append(seen, v))
                        d == G(h, Cdr(h, v), a[2])
                    IN <<n \o "=(" \o a[1] \o " . " \o d[1] \o ")", d[2]>>
                  ELSE LET r == GVec(h, Elts(h, v), 1, Append(seen, v)) IN <<n \o "=[" \o r[1] \o "]", r[2]>>
GVec(h, es, i, seen) ==
  IF i > Len(es) THEN <<"", seen>>
  ELSE LET a == G(h, es[i], seen)
           r == GVec(h, es, i + 1, a[2])
       IN <<(IF i = 1 THEN "" ELSE " ") \o a[1] \o r[1], r[2]>>
RECURSIVE GAll(_, _, _, _)
GAll(h, xs, i, seen) ==
  IF i > Len(xs) THEN <<"", seen>>
  ELSE LET a == G(h, xs[i], seen)
           r == GAll(h, xs, i + 1, a[2])
       IN <<(IF i = 1 THEN "" ELSE " ") \o a[1] \o r[1], r[2]>>
Graph(h, xs) == GAll(h, xs, 1, <<>>)[1]
Live(h, xs) == Len(GAll(h, xs, 1, <<>>)[2])
AllVars == Words([i \in V |-> XV(i)])

\* ---------------------------------------------------------- lists as values
\* [kind |-> "proper"/"improper"/"circular", es, cells, tail]
RECURSIVE Walk(_, _, _, _)
Walk(h, v, es, cells) ==
  IF ~IsP(v) THEN [kind |-> IF v = Nil THEN "proper" ELSE "improper", es |-> es, cells |-> cells, tail |-> v]
  ELSE IF IndexOf(cells, v, 1) # 0 THEN [kind |-> "circular", es |-> es, cells |-> cells, tail |-> v]
  ELSE Walk(h, Cdr(h, v), Append(es, Car(h, v)), Append(cells, v))
L(h, v) == Walk(h, v, <<>>, <<>>)
Proper(h, v) == L(h, v).kind = "proper"

\* a fresh list of es ending in tail: <<value, heap>>
RECURSIVE MkFrom(_, _, _, _)
MkFrom(h, es, i, tail) ==
  IF i > Len(es) THEN <<tail, h>>
  ELSE LET d == MkFrom(h, es, i + 1, tail)
       IN <<<<"p", Len(d[2]) + 1>>, Append(d[2], <<"pair", es[i], d[1]>>)>>
Mk(h, es, tail) == MkFrom(h, es, 1, tail)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* nothing reachable is reached through itself
RECURSIVE Acyc(_, _, _)
Acyc(h, v, above) ==
  IF v[1] = "a" THEN TRUE
  ELSE IF v \in above THEN FALSE
  ELSE IF IsP(v) THEN Acyc(h, Car(h, v), above \cup {v}) /\ Acyc(h, Cdr(h, v), above \cup {v})
  ELSE \A i \in 1..Len(Elts(h, v)) : Acyc(h, Elts(h, v)[i], above \cup {v})

RECURSIVE Equal(_, _, _)
Equal(h, a, b) ==
  IF a = b THEN TRUE
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE IF a[1] = "a" THEN a[4] = b[4]
  ELSE IF IsP(a) THEN Equal(h, Car(h, a), Car(h, b)) /\ Equal(h, Cdr(h, a), Cdr(h, b))
  ELSE Len(Elts(h, a)) = Len(Elts(h, b)) /\ \A i \in 1..Len(Elts(h, a)) : Equal(h, Elts(h, a)[i], Elts(h, b)[i])
\* the identity of string literals is not claimed
IsStr(v) == v[1] = "a" /\ v[2] = "\"s\""
KeyOk(kind, v) == kind # "equal" => ~IsStr(v)
SameBy(kind, h, a, b) == IF kind = "equal" THEN Equal(h, a, b) ELSE a = b

\* ----------------------------------------------------------------- operands
\* <<expression, value>>
VarOperand(i) == <<XV(i), x[i]>>
AtomOperand(a) == <<a[3], a>>
Operands == {VarOperand(i) : i \in V} \cup {AtomOperand(a) : a \in Atoms}
AnyOp == Pick(Operands)
\* sequences of up to three operands
AnyOps == IF Sim THEN {<<>>, <<RandomElement(Operands)>>, <<RandomElement(Operands), RandomElement(Operands)>>,
                       <<RandomElement(Operands), RandomElement(Operands), RandomElement(Operands)>>}
          ELSE UNION {[1..n -> Operands] : n \in 0..2}
AnyVar == {VarOperand(i) : i \in Pick(V)}

\* the result v (in heap h) of the expression e goes to xi
Put(i, e, v, h) ==
  /\ x' = [x EXCEPT ![i] = v]
  /\ heap' = h
  /\ Do("@@(set! " \o XV(i) \o " " \o e \o ") (%graph " \o AllVars \o ")", Graph(h, [x EXCEPT ![i] = v]))
\* the expression e changes the heap to h, its value is not claimed
Effect(e, h) ==
  /\ heap' = h
  /\ UNCHANGED x
  /\ Do("@@" \o e \o " (%graph " \o AllVars \o ")", Graph(h, x))
\* the expression e has the value shown and changes nothing
See(e, shown) == UNCHANGED <<x, heap>> /\ Do(e, shown)
\* it is an error that changes nothing
Bad(e) == UNCHANGED <<x, heap>> /\ Do("@@(begin " \o e \o " (emit 'no-error)) (%graph " \o AllVars \o ")", Err)
ThenSee == UNCHANGED <<x, heap>> /\ Do("@@(%graph " \o AllVars \o ")", Graph(heap, x))

\* --------------------------------------------------------------- operations
DoCons(i) == \E a \in AnyOp, b \in AnyOp : LET r == Mk(heap, <<a[2]>>, b[2]) IN Put(i, Call("cons", <<a[1], b[1]>>), r[1], r[2])
DoList(i) == \E as \in AnyOps :
               LET n == Len(as)
                   r == Mk(heap, [j \in 1..n |-> as[j][2]], Nil)
               IN Put(i, Call("list", [j \in 1..n |-> as[j][1]]), r[1], r[2])
DoSetCar == \E a \in AnyVar, b \in AnyOp :
               LET e == Call("set-car!", <<a[1], b[1]>>)
               IN IF IsP(a[2]) THEN Effect(e, [heap EXCEPT ![a[2][2]][2] = b[2]]) ELSE Bad(e)
DoSetCdr == \E a \in AnyVar, b \in AnyOp :
               LET e == Call("set-cdr!", <<a[1], b[1]>>)
               IN IF IsP(a[2]) THEN Effect(e, [heap EXCEPT ![a[2][2]][3] = b[2]]) ELSE Bad(e)
Paths == {<<"car", <<"a">>>>, <<"cdr", <<"d">>>>, <<"cadr", <<"d", "a">>>>, <<"cddr", <<"d", "d">>>>, <<"caddr", <<"d", "d", "a">>>>}
RECURSIVE Follow(_, _, _)
Follow(h, v, p) == IF p = <<>> THEN v ELSE IF ~IsP(v) THEN <<"none">>
                   ELSE Follow(h, IF p[1] = "a" THEN Car(h, v) ELSE Cdr(h, v), Tail(p))
DoAccess(i) == \E a \in AnyVar, p \in Pick(Paths) :
               LET r == Follow(heap, a[2], p[2])
                   e == Call(p[1], <<a[1]>>)
               IN IF r = <<"none">> THEN Bad(e) ELSE Put(i, e, r, heap)
DoAppend2(i) == \E a \in AnyVar, b \in AnyOp :
               LET l == L(heap, a[2])
                   e == Call("append", <<a[1], b[1]>>)
                   r == Mk(heap, l.es, b[2])
               IN IF l.kind = "proper" THEN Put(i, e, r[1], r[2]) ELSE l.kind # "circular" /\ Bad(e)
\* append of none, one or three (or more, in random runs two again)
RECURSIVE AppendAll(_, _, _)
\* <<value, heap>>, the last shared, the others copied
AppendAll(h, vs, i) == IF i = Len(vs) THEN <<vs[i], h>>
                       ELSE LET r == AppendAll(h, vs, i + 1) IN Mk(r[2], L(h, vs[i]).es, r[1])
DoAppend3(i) == \E as \in (IF Sim THEN AnyOps ELSE {<<>>} \cup {<<a>> : a \in Operands} \cup {<<VarOperand(a), VarOperand(b), VarOperand(1)>> : a, b \in V}) :
               LET n == Len(as)
                   e == Call("append", [j \in 1..n |-> as[j][1]])
                   kinds == {L(heap, as[j][2]).kind : j \in 1..(n - 1)}
                   r == AppendAll(heap, [j \in 1..n |-> as[j][2]], 1)
               IN IF n = 0 THEN Put(i, e, Nil, heap)
                  ELSE IF kinds \subseteq {"proper"} THEN Put(i, e, r[1], r[2])
                  ELSE "circular" \notin kinds /\ Bad(e)
DoReverse(i) == \E a \in AnyVar :
               LET l == L(heap, a[2])
                   r == Mk(heap, Rev(l.es), Nil)
                   e == Call("reverse", <<a[1]>>)
               IN IF l.kind = "proper" THEN Put(i, e, r[1], r[2]) ELSE l.kind # "circular" /\ Bad(e)
\* counts and indices: <<text, number>>; too far, in every width, or no index at all
Far == {"4294967296", "4294967297", "-4294967295", "2147483648", "-2147483648", "9223372036854775807", "-9223372036854775808", "-1", "256", "65536", "1/2", "'k", "#\\a", "'()"}
Counts(most) == {<<Str(k), k>> : k \in 0..most}
Odd == {<<t, -1>> : t \in IF Sim THEN Far ELSE {"4294967296", "-1", "1/2"}}
AnyCount(most) == IF Sim THEN {RandomElement(IF RandomElement(1..5) = 1 THEN Odd ELSE Counts(most)), RandomElement(Counts(most))} ELSE Counts(most) \cup Odd
\* the n'th tail, <<"none">> if there is none
RECURSIVE TailN(_, _, _)
TailN(h, v, n) == IF n = 0 THEN v ELSE IF ~IsP(v) THEN <<"none">> ELSE TailN(h, Cdr(h, v), n - 1)
DoListTail(i) == \E a \in AnyVar, c \in AnyCount(3) :
               LET n == c[2]
                   r == IF n < 0 THEN <<"none">> ELSE TailN(heap, a[2], n)
                   e == Call("list-tail", <<a[1], c[1]>>)
               IN IF n < 0 /\ L(heap, a[2]).kind = "circular" THEN FALSE ELSE IF r = <<"none">> THEN Bad(e)
                  ELSE (n > 0 \/ IsP(r) \/ r = Nil) /\ Put(i, e, r, heap)
RECURSIVE HeadN(_, _, _, _)
HeadN(h, v, n, acc) == IF n = 0 THEN <<acc>> ELSE IF ~IsP(v) THEN <<>> ELSE HeadN(h, Cdr(h, v), n - 1, Append(acc, Car(h, v)))
DoListHead(i) == \E a \in AnyVar, c \in AnyCount(3) :
               LET n == c[2]
                   r == IF n < 0 THEN <<>> ELSE HeadN(heap, a[2], n, <<>>)
                   e == Call("list-head", <<a[1], c[1]>>)
               IN IF n < 0 /\ L(heap, a[2]).kind = "circular" THEN FALSE ELSE IF r = <<>> THEN Bad(e)
                  ELSE LET m == Mk(heap, r[1], Nil) IN (n > 0 \/ IsP(a[2]) \/ a[2] = Nil) /\ Put(i, e, m[1], m[2])
DoListRef(i) == \E a \in AnyVar, c \in AnyCount(3) :
               LET n == c[2]
                   r == IF n < 0 THEN <<"none">> ELSE TailN(heap, a[2], n)
                   e == Call("list-ref", <<a[1], c[1]>>)
               IN IF n < 0 /\ L(heap, a[2]).kind = "circular" THEN FALSE ELSE IF IsP(r) THEN Put(i, e, Car(heap, r), heap) ELSE Bad(e)
DoLastPair(i) == \E a \in AnyVar :
               LET l == L(heap, a[2])
                   e == Call("last-pair", <<a[1]>>)
               IN IF ~IsP(a[2]) THEN a[2] # Nil /\ Bad(e)
                  ELSE IF l.kind = "circular" THEN Bad(e)
                  ELSE Put(i, e, l.cells[Len(l.cells)], heap)
DoMem(i) == \E a \in AnyOp, b \in AnyVar, f \in Pick({<<"memq", "eq">>, <<"memv", "eqv">>, <<"member", "equal">>}) :
               LET l == L(heap, b[2])
                   e == Call(f[1], <<a[1], b[1]>>)
                   hits == {j \in 1..Len(l.es) : SameBy(f[2], heap, a[2], l.es[j])}
               IN /\ f[2] = "equal" => Acyc(heap, a[2], {}) /\ \A j \in 1..Len(l.es) : Acyc(heap, l.es[j], {})
                  /\ l.kind = "proper" /\ KeyOk(f[2], a[2])
                  /\ Put(i, e, IF hits = {} THEN False ELSE l.cells[CHOOSE j \in hits : \A k \in hits : j <= k], heap)
DoMap(i) == \E a \in AnyVar, f \in Pick({"id", "box", "two"}) :
               LET l == L(heap, a[2])
                   n == Len(l.es)
               IN /\ l.kind = "proper" /\ (f # "id" => n > 0)
                  /\ CASE f = "id" -> LET r == Mk(heap, l.es, Nil) IN Put(i, "(map (lambda (e) e) " \o a[1] \o ")", r[1], r[2])
                       [] f = "box" ->
                            LET h1 == heap \o [j \in 1..n |-> <<"pair", l.es[j], Nil>>]
                                r == Mk(h1, [j \in 1..n |-> <<"p", Len(heap) + j>>], Nil)
                            IN Put(i, "(map list " \o a[1] \o ")", r[1], r[2])
                       [] OTHER ->
                            LET h1 == heap \o [j \in 1..n |-> <<"pair", l.es[j], l.es[j]>>]
                                r == Mk(h1, [j \in 1..n |-> <<"p", Len(heap) + j>>], Nil)
                            IN Put(i, "(map cons " \o a[1] \o " " \o a[1] \o ")", r[1], r[2])
DoApply(i) == \E a \in AnyVar, b \in AnyOp :
               LET l == L(heap, a[2])
                   r == Mk(heap, <<b[2]>> \o l.es, Nil)
               IN l.kind = "proper" /\ Put(i, "(apply list " \o b[1] \o " " \o a[1] \o ")", r[1], r[2])
DoRest(i) == \E a \in AnyVar, b \in AnyOp :
               LET l == L(heap, a[2])
                   r == Mk(heap, l.es, Nil)
               IN l.kind = "proper" /\ Put(i, "(apply (lambda (q . r) r) " \o b[1] \o " " \o a[1] \o ")", r[1], r[2])
DoPred == \E a \in AnyVar, p \in Pick({"pair?", "null?", "list?", "length", "vector?"}) :
               LET l == L(heap, a[2])
               IN CASE p = "pair?" -> See(Call(p, <<a[1]>>), BoolText(IsP(a[2])))
                    [] p = "null?" -> See(Call(p, <<a[1]>>), BoolText(a[2] = Nil))
                    [] p = "vector?" -> See(Call(p, <<a[1]>>), BoolText(IsV(a[2])))
                    [] p = "list?" -> See(Call(p, <<a[1]>>), BoolText(l.kind = "proper"))
                    [] OTHER -> IF l.kind = "proper" THEN See(Call(p, <<a[1]>>), Str(Len(l.es))) ELSE Bad(Call(p, <<a[1]>>))
DoSame == \E a \in AnyVar, b \in AnyVar, p \in Pick({"eq?", "eqv?", "equal?"}) :
               IF p = "equal?" THEN Acyc(heap, a[2], {}) /\ Acyc(heap, b[2], {}) /\ See(Call(p, <<a[1], b[1]>>), BoolText(Equal(heap, a[2], b[2])))
               ELSE KeyOk("eq", a[2]) /\ See(Call(p, <<a[1], b[1]>>), BoolText(a[2] = b[2]))
DoCopy(i) == \E a \in AnyVar : Put(i, a[1], a[2], heap)
DoQuasi(i) == \E a \in AnyVar, b \in AnyOp, c \in AnyOp :
               LET l == L(heap, a[2])
                   r == Mk(heap, <<b[2]>> \o l.es, Nil)
                   q == Mk(heap, <<b[2]>>, c[2])
               IN \/ l.kind = "proper" /\ Put(i, "`(," \o b[1] \o " ,@(append " \o a[1] \o " '()))", r[1], r[2])
                  \/ Put(i, "`(," \o b[1] \o " . ," \o c[1] \o ")", q[1], q[2])

\* vectors
MaxV == 4
NewVec(h, es) == <<<<"v", Len(h) + 1>>, Append(h, <<"vec", es>>)>>
DoVector(i) == \E as \in AnyOps :
               LET n == Len(as)
                   r == NewVec(heap, [j \in 1..n |-> as[j][2]])
               IN Put(i, Call("vector", [j \in 1..n |-> as[j][1]]), r[1], r[2])
\* a length of which there is no vector
NoLength == {"-1", "-4294967294", "-9223372036854775808", "1/2", "'k", "#\\a", "'()"}
AnyLength == IF Sim THEN {RandomElement(IF RandomElement(1..5) = 1 THEN {<<t, -1>> : t \in NoLength} ELSE {<<Str(k), k>> : k \in {0, 1, 2, 3, 4, 5, 9, 17}})} ELSE Counts(3) \cup {<<t, -1>> : t \in {"-1", "1/2"}}
DoMakeVector(i) == \E c \in AnyLength, a \in AnyOp :
               LET n == c[2]
                   e == Call("make-vector", <<c[1], a[1]>>)
                   r == NewVec(heap, [j \in 1..n |-> a[2]])
               IN IF n < 0 THEN Bad(e) ELSE Put(i, e, r[1], r[2])
DoVectorRef(i) == \E a \in AnyVar, c \in AnyCount(IF Sim THEN 17 ELSE 3) :
               LET n == c[2]
                   e == Call("vector-ref", <<a[1], c[1]>>)
               IN IF IsV(a[2]) /\ n >= 0 /\ n < Len(Elts(heap, a[2])) THEN Put(i, e, Elts(heap, a[2])[n + 1], heap) ELSE Bad(e)
DoVectorSet == \E a \in AnyVar, c \in AnyCount(IF Sim THEN 5 ELSE 3), b \in AnyOp :
               LET n == c[2]
                   e == Call("vector-set!", <<a[1], c[1], b[1]>>)
               IN IF IsV(a[2]) /\ n >= 0 /\ n < Len(Elts(heap, a[2])) THEN Effect(e, [heap EXCEPT ![a[2][2]][2][n + 1] = b[2]]) ELSE Bad(e)
DoVectorLength == \E a \in AnyVar :
               LET e == Call("vector-length", <<a[1]>>) IN IF IsV(a[2]) THEN See(e, Str(Len(Elts(heap, a[2])))) ELSE Bad(e)
DoVectorToList(i) == \E a \in AnyVar :
               LET e == Call("vector->list", <<a[1]>>)
                   r == Mk(heap, Elts(heap, a[2]), Nil)
               IN IF IsV(a[2]) THEN Put(i, e, r[1], r[2]) ELSE Bad(e)
DoListToVector(i) == \E a \in AnyVar :
               LET e == Call("list->vector", <<a[1]>>)
                   l == L(heap, a[2])
                   r == NewVec(heap, l.es)
               IN IF l.kind = "proper" THEN Put(i, e, r[1], r[2]) ELSE l.kind # "circular" /\ Bad(e)

\* association lists
Assq == {<<"assq", "eq">>, <<"assv", "eqv">>, <<"assoc", "equal">>}
AlistOk(v, kind) == LET l == L(heap, v) IN /\ l.kind = "proper"
                                           /\ \A j \in 1..Len(l.es) : IsP(l.es[j])
                                           /\ kind = "equal" => \A j \in 1..Len(l.es) : Acyc(heap, l.es[j], {})
Hits(v, key, kind) == LET l == L(heap, v) IN {j \in 1..Len(l.es) : SameBy(kind, heap, key, Car(heap, l.es[j]))}
First(s) == CHOOSE j \in s : \A k \in s : j <= k
DoAss(i) == \E k \in AnyOp, a \in AnyVar, f \in Pick(Assq) :
               LET hs == Hits(a[2], k[2], f[2])
               IN /\ AlistOk(a[2], f[2]) /\ KeyOk(f[2], k[2]) /\ (f[2] = "equal" => Acyc(heap, k[2], {}))
                  /\ Put(i, Call(f[1], <<k[1], a[1]>>), IF hs = {} THEN False ELSE L(heap, a[2]).es[First(hs)], heap)
DoAssocRef(i) == \E k \in AnyOp, a \in AnyVar :
               LET hs == Hits(a[2], k[2], "equal")
               IN /\ AlistOk(a[2], "equal") /\ Acyc(heap, k[2], {})
                  /\ Put(i, Call("assoc-ref", <<a[1], k[1]>>), IF hs = {} THEN False ELSE Cdr(heap, L(heap, a[2]).es[First(hs)]), heap)
DoAcons(i) == \E k \in AnyOp, v \in AnyOp, a \in AnyVar :
               LET h1 == Append(heap, <<"pair", k[2], v[2]>>)
                   r == Mk(h1, <<<<"p", Len(h1)>>>>, a[2])
               IN Put(i, Call("acons", <<k[1], v[1], a[1]>>), r[1], r[2])
\* assq-set! and assoc-set! return a list in which exactly the key's association is changed.
\* Which cells of it are fresh is not claimed: only its contents are looked at.
KeyText(j, es) == es[j]
Lookups == {<<"assq", "eq">>, <<"assoc", "equal">>}
RECURSIVE FlatText(_, _)
FlatText(h, v) ==
  CASE v[1] = "a" -> v[2]
    [] IsV(v) -> "#(" \o Words([j \in 1..Len(Elts(h, v)) |-> FlatText(h, Elts(h, v)[j])]) \o ")"
    [] OTHER -> LET l == L(h, v)
                    es == [j \in 1..Len(l.es) |-> FlatText(h, l.es[j])]
                IN "(" \o Words(es) \o (IF l.tail = Nil THEN "" ELSE " . " \o FlatText(h, l.tail)) \o ")"
UpdText(v, key, kind, newpair) ==
  LET l == L(heap, v)
      hs == Hits(v, key, kind)
  IN [j \in 1..Len(l.es) |-> IF hs # {} /\ j = First(hs) THEN newpair ELSE FlatText(heap, l.es[j])]
PairText(k, v) == LET t == FlatText(heap, v)
                  IN "(" \o FlatText(heap, k) \o (IF v = Nil THEN ")" ELSE IF IsP(v) THEN " " \o SubSeq(t, 2, Len(t)) ELSE " . " \o t \o ")")
DoAssocSet == \E k \in AnyOp, v \in AnyOp, a \in AnyVar, f \in Pick({<<"assq-set!", "eq">>, <<"assoc-set!", "equal">>}) :
               LET hs == Hits(a[2], k[2], f[2])
                   e == Call(f[1], <<a[1], k[1], v[1]>>)
                   ts == UpdText(a[2], k[2], f[2], PairText(k[2], v[2]))
               IN /\ AlistOk(a[2], "equal") /\ KeyOk(f[2], k[2]) /\ Acyc(heap, k[2], {}) /\ Acyc(heap, v[2], {}) /\ Acyc(heap, a[2], {})
                  /\ IF Cardinality(hs) # 1 THEN See(Call("assoc-ref", <<e, k[1]>>), FlatText(heap, v[2]))
                     ELSE See(e, ListText(ts))
DoAssocRemove == \E k \in AnyOp, a \in AnyVar :
               LET l == L(heap, a[2])
                   hs == Hits(a[2], k[2], "equal")
                   rest == SelectSeq([j \in 1..Len(l.es) |-> <<j, l.es[j]>>], LAMBDA z : z[1] \notin hs)
               IN /\ AlistOk(a[2], "equal") /\ Acyc(heap, k[2], {}) /\ Acyc(heap, a[2], {})
                  /\ Cardinality(hs) <= 1
                  /\ See(Call("assoc-remove!", <<a[1], k[1]>>), ListText([j \in 1..Len(rest) |-> FlatText(heap, rest[j][2])]))

Step(op, i) ==
  CASE op = "cons" -> DoCons(i) [] op = "list" -> DoList(i) [] op = "set-car" -> DoSetCar [] op = "set-cdr" -> DoSetCdr
    [] op = "access" -> DoAccess(i) [] op = "append" -> DoAppend2(i) [] op = "append3" -> DoAppend3(i) [] op = "reverse" -> DoReverse(i)
    [] op = "list-tail" -> DoListTail(i) [] op = "list-head" -> DoListHead(i) [] op = "list-ref" -> DoListRef(i)
    [] op = "last-pair" -> DoLastPair(i) [] op = "mem" -> DoMem(i) [] op = "map" -> DoMap(i) [] op = "apply" -> DoApply(i)
    [] op = "rest" -> DoRest(i) [] op = "pred" -> DoPred [] op = "same" -> DoSame [] op = "copy" -> DoCopy(i) [] op = "quasi" -> DoQuasi(i)
    [] op = "vector" -> DoVector(i) [] op = "make-vector" -> DoMakeVector(i) [] op = "vector-ref" -> DoVectorRef(i)
    [] op = "vector-set" -> DoVectorSet [] op = "vector-length" -> DoVectorLength [] op = "vector->list" -> DoVectorToList(i)
    [] op = "list->vector" -> DoListToVector(i) [] op = "ass" -> DoAss(i) [] op = "assoc-ref" -> DoAssocRef(i)
    [] op = "acons" -> DoAcons(i) [] op = "assoc-set" -> DoAssocSet [] op = "assoc-remove" -> DoAssocRemove
    [] OTHER -> ThenSee

Init == x = [i \in V |-> Nil] /\ heap = <<>> /\ hist = [i \in V |-> <<"!!(define x" \o Str(i) \o " '())", "">>]
\* in a random run a few operations and operands are picked, and TLC picks one of those
NoTarget == {"set-car", "set-cdr", "pred", "same", "vector-set", "vector-length", "assoc-set", "assoc-remove", "look"}
Next == (Sim \/ (Len(hist) < MaxLen + NVar /\ Live(heap, x) <= MaxSize)) /\ \E op \in Pick(Ops) \cup (IF Sim THEN {"look"} ELSE {}), i \in Pick(V) : (Sim \/ op \notin NoTarget \/ i = 1) /\ Step(op, i)
View == Graph(heap, x)
Bound == TRUE

\* every reachable location exists
HeapOk == /\ \A i \in V : x[i][1] \in {"p", "v"} => x[i][2] <= Len(heap)
          /\ \A l \in 1..Len(heap) : heap[l][1] = "pair" =>
               \A v \in {heap[l][2], heap[l][3]} : v[1] \in {"p", "v"} => v[2] <= Len(heap)
=============================================================================
