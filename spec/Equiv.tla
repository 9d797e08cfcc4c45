------------------------------- MODULE Equiv -------------------------------
(***************************************************************************)
(* eq?, eqv?, equal? and what selects by them (C13).  Objects o1..on are   *)
(* made one after the other; then every pair is compared by every          *)
(* predicate.                                                              *)
(*                                                                         *)
(* An object is [t: type, id: which object it is, s: its structure].       *)
(* Structures are <<"a", text>>, <<"p", s, s>>, <<"v", <<s...>>>>.         *)
(***************************************************************************)
EXTENDS Path

CONSTANTS NObj,
          Values,   \* <<type, expression, text>>: num, char, str, sym, bool, nil
          Opaque,   \* expressions, each making a new object
          Shared,   \* expressions that always give the same object
          Sim

VARIABLES objs, at
vars == <<objs, at, hist>>

N == Len(objs)
OV(i) == "o" \o Str(i)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Obj(t, id, s) == [t |-> t, id |-> id, s |-> s]
Self(s) == Obj(s, N + 1, s)
MakeObj(o, e) == objs' = Append(objs, o) /\ at' = at /\ Do("!!(define " \o OV(N + 1) \o " " \o e \o ")", "")

\* long and deep structures, whose inside is not looked at, are <<"l", text>>
MakeValue == \E v \in Pick(Values) :
               MakeObj(Obj(v[1], N + 1, IF v[1] = "vec" THEN <<"v", <<>>>> ELSE <<IF v[1] = "pair" THEN "l" ELSE "a", v[3]>>), v[2])
MakeOpaque == \E e \in Pick(Opaque) : MakeObj(Obj("obj", N + 1, <<"a", "object " \o Str(N + 1)>>), e)
MakeShared == \E e \in Pick(Shared) : MakeObj(Obj("obj", e, <<"a", "the " \o e>>), e)
\* the same object under another name, or found again in a structure
MakeAlias == N > 0 /\ \E i \in Pick(1..N), f \in Pick({<<"", "">>, <<"(car (list ", "))">>, <<"(vector-ref (vector 0 ", ") 1)">>, <<"((lambda (x) x) ", ")">>, <<"(cdr (cons 1 ", "))">>}) :
               MakeObj(objs[i], f[1] \o OV(i) \o f[2])
MakePair == N > 0 /\ \E i, j \in Pick(1..N) : MakeObj(Obj("pair", N + 1, <<"p", objs[i].s, objs[j].s>>), Call("cons", <<OV(i), OV(j)>>))
NilS == <<"a", "()">>
RECURSIVE ListS(_, _)
ListS(ss, i) == IF i > Len(ss) THEN NilS ELSE <<"p", ss[i], ListS(ss, i + 1)>>
Some3 == IF Sim THEN {[k \in 1..RandomElement(1..3) |-> RandomElement(1..N)]} ELSE UNION {[1..n -> 1..N] : n \in 1..2}
MakeList == N > 0 /\ \E is \in Some3 : MakeObj(Obj("pair", N + 1, ListS([k \in 1..Len(is) |-> objs[is[k]].s], 1)), Call("list", [k \in 1..Len(is) |-> OV(is[k])]))
MakeVector == N > 0 /\ \E is \in Some3 : MakeObj(Obj("vec", N + 1, <<"v", [k \in 1..Len(is) |-> objs[is[k]].s]>>), Call("vector", [k \in 1..Len(is) |-> OV(is[k])]))
\* another object of the same structure, all of whose pairs, vectors and strings are new
MakeCopy == N > 0 /\ \E i \in Pick(1..N) :
              /\ objs[i].t \in {"pair", "vec", "str"}
              /\ MakeObj(Obj(objs[i].t, N + 1, objs[i].s), Call("copy", <<OV(i)>>))
\* one whose last leaf is replaced, from the right or the left
RECURSIVE Near(_, _, _)
Near(s, right, new) ==
  CASE s[1] = "p" -> IF right THEN <<"p", s[2], Near(s[3], right, new)>> ELSE <<"p", Near(s[2], right, new), s[3]>>
    [] s[1] = "v" /\ Len(s[2]) > 0 -> LET k == IF right THEN Len(s[2]) ELSE 1 IN <<"v", [s[2] EXCEPT ![k] = Near(s[2][k], right, new)]>>
    [] OTHER -> new
RECURSIVE Leaf(_, _)
Leaf(s, right) == CASE s[1] = "p" -> Leaf(s[IF right THEN 3 ELSE 2], right)
                    [] s[1] = "v" /\ Len(s[2]) > 0 -> Leaf(s[2][IF right THEN Len(s[2]) ELSE 1], right)
                    [] OTHER -> s[1]
MakeNear == N > 0 /\ \E i \in Pick(1..N), j \in Pick(1..N), right \in Pick(BOOLEAN) :
              /\ objs[i].s[1] \in {"p", "v"} /\ objs[i].s # <<"v", <<>>>> /\ Leaf(objs[i].s, right) # "l"
              /\ MakeObj(Obj(objs[i].t, N + 1, Near(objs[i].s, right, objs[j].s)), Call("near", <<OV(i), BoolText(right), OV(j)>>))

\* ------------------------------------------------------------ the relations
Equal(a, b) == a.s = b.s
Same(a, b) == a.id = b.id
ByName == {"sym", "bool", "nil"}
Eqv(a, b) == IF ~Equal(a, b) THEN "#f" ELSE IF a.t \in ByName \cup {"num", "char"} THEN "#t"
             ELSE IF Same(a, b) THEN "#t" ELSE IF a.t = "str" \/ a.s = <<"v", <<>>>> THEN "?" ELSE "#f"
Eq(a, b) == IF a.t \in {"num", "char"} /\ Equal(a, b) THEN "?" ELSE Eqv(a, b)

\* (ask x y), defined in the prelude, asks the same of everything that selects by a relation:
\* the predicates, memq..., assq..., hash tables
Answers(a, b) == LET q == Eq(a, b)
                     v == Eqv(a, b)
                     e == BoolText(Equal(a, b))
                 IN <<q, v, e, q, v, e, q, v, e, q, v, e>>

\* pairs in the order (1,1), (1,2), ...
Compare ==
  /\ N = NObj /\ at < N * N
  /\ LET i == (at \div N) + 1
         j == (at % N) + 1
     IN Do(Call("ask", <<OV(i), OV(j)>>), ListText(Answers(objs[i], objs[j])))
  /\ at' = at + 1 /\ UNCHANGED objs

Make == \/ MakeValue \/ MakeOpaque \/ MakeShared \/ MakeAlias \/ MakePair \/ MakeList \/ MakeVector \/ MakeCopy \/ MakeNear
Init == objs = <<>> /\ at = 0 /\ hist = <<>>
Next == IF N < NObj THEN Make ELSE Compare
View == <<objs, at>>
Bound == TRUE

\* the relations as specified are equivalences, each finer than the next
Yes == {"#t", "?"}
Inv == N = NObj /\ at = 0 =>
       \A i, j, k \in 1..N :
         /\ Equal(objs[i], objs[i]) /\ Eqv(objs[i], objs[i]) = "#t" /\ Eq(objs[i], objs[i]) \in Yes
         /\ Equal(objs[i], objs[j]) = Equal(objs[j], objs[i]) /\ Eqv(objs[i], objs[j]) = Eqv(objs[j], objs[i]) /\ Eq(objs[i], objs[j]) = Eq(objs[j], objs[i])
         /\ Equal(objs[i], objs[j]) /\ Equal(objs[j], objs[k]) => Equal(objs[i], objs[k])
         /\ Eqv(objs[i], objs[j]) = "#t" /\ Eqv(objs[j], objs[k]) = "#t" => Eqv(objs[i], objs[k]) = "#t"
         /\ Eq(objs[i], objs[j]) = "#t" => Eqv(objs[i], objs[j]) = "#t"
         /\ Eqv(objs[i], objs[j]) = "#t" => Equal(objs[i], objs[j])
=============================================================================
