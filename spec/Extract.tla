------------------------------ MODULE Extract ------------------------------
(* What the extraction of audio and images writes, given a file's content. *)
(* A block is [k, v]: k "audio" (v: sample format, channels, bytes from a  *)
(* sample frame to the next one or 0, rate, count), "raw" (a grey image:   *)
(* width, height, bytes from a line to the next or 0), "jpg", "png" or     *)
(* "custom" (size). A record is the bytes of the blocks of its format.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bits(sf) == CASE sf \in 1..4 -> 8 [] sf \in 5..8 -> 16 [] sf \in 9..12 -> 24 [] sf \in 13..18 -> 32 [] OTHER -> 64
WavTag(sf) == CASE sf = 3 -> 6 [] sf = 4 -> 7 [] sf \in 17..20 -> 3 [] OTHER -> 1
Frame(v) == (Bits(v[1]) \div 8) * v[2]
Stride(v) == IF v[3] = 0 THEN Frame(v) ELSE v[3]
Kind(v) == <<v[1], v[2], Stride(v), v[4]>>   \* what may go on in the same file
Line(v) == IF v[3] = 0 THEN v[1] ELSE v[3]
IsImage(b) == b.k \in {"raw", "jpg", "png"}
BlockSize(b) == CASE b.k = "audio" -> Stride(b.v) * b.v[5]
                  [] b.k = "raw" -> Line(b.v) * b.v[2]
                  [] OTHER -> b.v[1]
Digits(n, w) == LET s == ToString(n) IN IF Len(s) >= w THEN s ELSE SubSeq("00000000", 1, w - Len(s)) \o s
Time(t) == ToString(t \div 8) \o "." \o Digits(125 * (t % 8), 3)

RECURSIVE Rows(_, _, _, _)
Rows(d, n, keep, step) == \* n times the first bytes of each step
  IF n = 0 THEN <<>> ELSE SubSeq(d, 1, keep) \o Rows(SubSeq(d, step + 1, Len(d)), n - 1, keep, step)
Samples(x) == Rows(x.data, x.v[5], Frame(x.v), Stride(x.v))

RECURSIVE Cut(_, _, _)
Cut(bs, d, ts) == \* the blocks of a record with their bytes
  IF bs = <<>> THEN <<>>
  ELSE LET b == Head(bs)
           n == BlockSize(b)
       IN <<[k |-> b.k, v |-> b.v, data |-> SubSeq(d, 1, n), ts |-> ts]>> \o Cut(Tail(bs), SubSeq(d, n + 1, Len(d)), ts)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

\* audio: a file for each run of blocks of the same kind
RECURSIVE Runs(_, _)
Runs(q, cur) ==
  IF q = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF cur # <<>> /\ Kind(cur[1].v) # Kind(Head(q).v) THEN <<cur>> \o Runs(Tail(q), <<Head(q)>>)
  ELSE Runs(Tail(q), Append(cur, Head(q)))
Wav(name, run) ==
  LET v == run[1].v
      d == Flat([i \in 1..Len(run) |-> Samples(run[i])])
  IN [name |-> name, k |-> "wav", ok |-> TRUE, riff |-> 36 + Len(d), size |-> Len(d), data |-> d,
      fmt |-> <<WavTag(v[1]), v[2], v[4], v[4] * Frame(v), Frame(v), Bits(v[1])>>]
Wavs(id, q) == LET R == Runs(q, <<>>) IN
  {Wav(id \o "-" \o Digits(i - 1, 4) \o "-" \o Time(R[i][1].ts) \o ".wav", R[i]) : i \in 1..Len(R)}

\* images: a file each, numbered in the stream
ImageName(id, n, x, png) ==
  id \o "-" \o Digits(n, 5) \o "-" \o Time(x.ts) \o
  (IF x.k # "raw" THEN "." \o x.k
   ELSE IF png THEN ".png"
   ELSE "-grey8-" \o ToString(x.v[1]) \o "x" \o ToString(x.v[2]) \o (IF x.v[3] > 0 THEN "-stride_" \o ToString(x.v[3]) ELSE "") \o ".raw")
Image(id, n, x, png) ==
  LET name == ImageName(id, n, x, png) IN
  IF x.k = "raw" /\ png THEN [name |-> name, k |-> "png", grey |-> TRUE, w |-> x.v[1], h |-> x.v[2], data |-> Rows(x.data, x.v[2], x.v[1], Line(x.v))]
  ELSE [name |-> name, k |-> "bytes", data |-> x.data]
Images(id, q, png) == {Image(id, n, q[n], png) : n \in 1..Len(q)}
=============================================================================
