----------------------------- MODULE CharReader -----------------------------
(***************************************************************************)
(* What read does on a sequence of characters (codes): one datum of a      *)
(* small language, and the rest.  The result has st "ok", "eof" (nothing   *)
(* left, or a datum that does not end), "bad" (malformed) or "no" (text    *)
(* this specification says nothing about).                                 *)
(***************************************************************************)
EXTENDS Path

CONSTANT Shown \* code + 1 -> the character as part of a text shown

Blank == {32, 9, 10, 12, 13}
Letters == {97, 98, 99, 120, 88}
Digits == 49..57
Delim(s) == s = <<>> \/ Head(s) \in Blank \cup {40, 41, 34, 59, 39}
RECURSIVE AfterLine(_)
AfterLine(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = 10 THEN Tail(s) ELSE AfterLine(Tail(s))
RECURSIVE Skip(_)
Skip(s) == IF s = <<>> THEN s ELSE IF Head(s) \in Blank THEN Skip(Tail(s)) ELSE IF Head(s) = 59 THEN Skip(AfterLine(Tail(s))) ELSE s
RECURSIVE ShowCodes(_)
ShowCodes(s) == IF s = <<>> THEN "" ELSE Shown[Head(s) + 1] \o ShowCodes(Tail(s))
RECURSIVE TokenLen(_)
TokenLen(s) == IF s = <<>> \/ Head(s) \notin Letters \cup Digits THEN 0 ELSE 1 + TokenLen(Tail(s))
Upto(s, n) == SubSeq(s, 1, n)
From(s, n) == SubSeq(s, n + 1, Len(s))
At(s, c) == IF \E i \in DOMAIN s : s[i] = c THEN CHOOSE i \in DOMAIN s : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c ELSE 0
Datum(t, rest) == [st |-> "ok", t |-> t, rest |-> rest]
Not(st) == [st |-> st, t |-> "", rest |-> <<>>]
RECURSIVE ReadDatum(_)
RECURSIVE ReadItems(_, _, _)
ReadDatum(s0) ==
  LET s == Skip(s0)
  IN IF s = <<>> THEN Not("eof")
     ELSE LET c == Head(s) r == Tail(s)
          IN IF c = 40 THEN ReadItems(r, <<>>, "(")
             ELSE IF c = 41 THEN Not("bad")
             ELSE IF c = 39 THEN LET d == ReadDatum(r) IN IF d.st = "ok" THEN Datum("(quote " \o d.t \o ")", d.rest) ELSE d
             ELSE IF c = 34 THEN LET e == At(r, 34) IN IF At(r, 92) # 0 \/ At(r, 0) # 0 THEN Not("no") ELSE IF e = 0 THEN Not("eof") ELSE Datum("\"" \o ShowCodes(Upto(r, e - 1)) \o "\"", From(r, e))
             ELSE IF c \in Letters \cup Digits THEN LET n == TokenLen(s) IN IF Delim(From(s, n)) THEN Datum(ShowCodes(Upto(s, n)), From(s, n)) ELSE Not("no")
             ELSE IF c = 35 /\ r # <<>> /\ Head(r) = 40 THEN ReadItems(Tail(r), <<>>, "#(")
             ELSE IF c = 35 /\ r # <<>> /\ Head(r) \in {116, 102} /\ Delim(Tail(r)) THEN Datum(IF Head(r) = 116 THEN "#t" ELSE "#f", Tail(r))
             ELSE IF c = 35 /\ Len(r) > 1 /\ Head(r) = 92 /\ r[2] # 0 /\ (r[2] \in Blank \/ Delim(From(r, 2))) THEN Datum("#\\" \o Str(r[2]), From(r, 2))
             ELSE Not("no")
ReadItems(s0, items, open) ==
  LET s == Skip(s0)
  IN IF s = <<>> THEN Not("eof")
     ELSE IF Head(s) = 41 THEN Datum(IF open = "(" THEN ListText(items) ELSE "#" \o ListText(items), Tail(s))
     ELSE LET d == ReadDatum(s) IN IF d.st = "ok" THEN ReadItems(d.rest, Append(items, d.t), open) ELSE d
=============================================================================
