----------------------------- MODULE Describe -----------------------------
(* What a description record says about the streams and the file, in the   *)
(* current format and in the first one; texts are sequences of bytes.      *)
EXTENDS Integers, Sequences

Digit(c) == c \in 48..57
\* the names of streams used to end with their instance number
Strip(s) ==
  LET At == {i \in 1..(Len(s) - 1) : s[i] = 32 /\ s[i + 1] = 35} IN
  IF Len(s) < 4 \/ At = {} THEN s
  ELSE LET k == CHOOSE i \in At : \A j \in At : j <= i IN
       IF \A i \in (k + 2)..Len(s) : Digit(s[i]) THEN SubSeq(s, 1, k - 1) ELSE s

\* the types of test devices have moved
Type(rt) == IF rt >= 100000 THEN rt - 100000 + 65500 ELSE rt

Before(a, b) == a.t < b.t \/ (a.t = b.t /\ a.i < b.i)
RECURSIVE Sorted(_)
Sorted(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET k == CHOOSE k \in 1..Len(q) : \A j \in 1..Len(q) : j = k \/ Before(q[k], q[j]) IN
       <<q[k]>> \o Sorted(SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q)))

\* what is read of a stream, but for its serial number
Stream(ver, s) ==
  [t |-> s.t, i |-> s.i, user |-> s.user,
   name |-> IF s.name = <<>> THEN <<>> ELSE <<Strip(s.name[1])>>,
   flavor |-> IF ver = 1 THEN <<>> ELSE s.flavor, other |-> IF ver = 1 THEN <<>> ELSE s.other]
\* serial numbers exist since the current format; streams without any get one which depends on
\* the tags of the file, those of the stream, and its number among the streams of its type without any
Serial(ver, s) == IF ver = 1 \/ s.serial = <<>> THEN <<>> ELSE s.serial[1]
Nth(ver, q, k) == Len(SelectSeq(SubSeq(q, 1, k), LAMBDA s : s.t = q[k].t /\ Serial(ver, s) = <<>>))
Essence(ver, tags, q, k) ==
  LET s == Stream(ver, q[k]) IN
  [tags |-> tags, user |-> s.user, name |-> s.name, flavor |-> s.flavor, other |-> s.other, t |-> s.t, n |-> Nth(ver, q, k)]
=============================================================================
