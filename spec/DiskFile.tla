----------------------------- MODULE DiskFile -----------------------------
(***************************************************************************)
(* A file made of chunks, as one contiguous sequence of cells (a cell      *)
(* stands for a fixed number of bytes). A file is the sequence of the      *)
(* contents of its chunks; 0 is a cell of zero bytes.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE FlatFrom(_, _)
FlatFrom(ch, k) == IF k > Len(ch) THEN <<>> ELSE ch[k] \o FlatFrom(ch, k + 1)
Flat(ch) == FlatFrom(ch, 1)

RECURSIVE Off(_, _)
Off(ch, k) == IF k <= 1 THEN 0 ELSE Off(ch, k - 1) + Len(ch[k - 1])   \* offset of chunk k
Total(ch) == Off(ch, Len(ch) + 1)

Zeros(n) == [i \in 1..n |-> 0]
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

\* the cells of a sequence written at a position (from 0), extending it as needed
PutAt(s, pos, d) ==
  LET t == IF Len(s) < pos THEN s \o Zeros(pos - Len(s)) ELSE s
      m == MaxI(Len(t), pos + Len(d))
  IN IF d = <<>> THEN s ELSE [i \in 1..m |-> IF i > pos /\ i <= pos + Len(d) THEN d[i - pos] ELSE t[i]]

ReadAt(s, pos, n) == SubSeq(s, pos + 1, MinI(Len(s), pos + n))

\* the same contiguous content, cut in chunks of the same sizes, the last one taking what is left
RECURSIVE CutFrom(_, _, _)
CutFrom(s, ch, k) == IF k = Len(ch) THEN <<s>> ELSE <<SubSeq(s, 1, Len(ch[k]))>> \o CutFrom(SubSeq(s, Len(ch[k]) + 1, Len(s)), ch, k + 1)

Overwrite(ch, pos, d) == CutFrom(PutAt(Flat(ch), pos, d), ch, 1)
WriteIn(ch, k, cp, d) == [ch EXCEPT ![k] = PutAt(@, cp, d)]
SetSize(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s))
Truncate(ch, k, cp) == [ch EXCEPT ![k] = SetSize(@, cp)]

\* chunks after the k-th starting at n or later are forgotten
RECURSIVE Kept(_, _, _)
Kept(ch, k, n) == IF Len(ch) > k /\ Off(ch, Len(ch)) >= n THEN Kept(SubSeq(ch, 1, Len(ch) - 1), k, n) ELSE Len(ch)
=============================================================================
