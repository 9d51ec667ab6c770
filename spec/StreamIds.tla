---------------------------- MODULE StreamIds ----------------------------
(***************************************************************************)
(* Identifiers of streams.                                                 *)
(*                                                                         *)
(* A stream created with a type gets the next number of its type, from 1.  *)
(* A renumbering scope starts all numbers again at 1 and puts the outer    *)
(* ones back when it ends; while its thread has it, other threads creating *)
(* streams wait.                                                           *)
(*                                                                         *)
(* Text forms (sequences of character codes): TYPE-NUMBER or TYPE+NUMBER,  *)
(* decimal, each at most 65535.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* cnt: the innermost numbering, type -> last number given; outer: those put aside by the scopes, innermost first
Empty == [t \in {} |-> 0]
Last(cnt, t) == IF t \in DOMAIN cnt THEN cnt[t] ELSE 0
Given(cnt, t) == [u \in DOMAIN cnt \cup {t} |-> IF u = t THEN Last(cnt, t) + 1 ELSE cnt[u]]

Digit(c) == 48 <= c /\ c <= 57
Max16 == 65535
TooBig == Max16 + 1
\* the value of a sequence of digits, or TooBig
RECURSIVE ValueFrom(_, _, _)
ValueFrom(s, k, v) == IF k > Len(s) THEN v ELSE IF v >= TooBig THEN TooBig ELSE LET w == 10 * v + (s[k] - 48) IN ValueFrom(s, k + 1, IF w > Max16 THEN TooBig ELSE w)
Value(s) == ValueFrom(s, 1, 0)

None == <<>>
\* the identifier a text stands for: <<type, number>>, or None
Parse(s, sep) ==
  LET P == {k \in 1..Len(s) : s[k] = sep}
  IN IF Cardinality(P) # 1 THEN None
     ELSE LET p == CHOOSE k \in P : TRUE
              a == SubSeq(s, 1, p - 1)
              b == SubSeq(s, p + 1, Len(s))
          IN IF a = <<>> \/ b = <<>> \/ (\E k \in 1..Len(a) : ~Digit(a[k])) \/ (\E k \in 1..Len(b) : ~Digit(b[k])) THEN None
             ELSE IF Value(a) >= TooBig \/ Value(b) >= TooBig THEN None ELSE <<Value(a), Value(b)>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Form(t, n, sep) == Digits(t) \o <<sep>> \o Digits(n)

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
=============================================================================
