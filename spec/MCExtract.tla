----------------------------- MODULE MCExtract -----------------------------
(* A stream of audio blocks being extracted: what the files say together.  *)
EXTENDS Extract
CONSTANTS MaxBlocks, Quick
VARIABLES blocks, files, cur   \* blocks read; files closed; the one being written (its blocks)
vars == <<blocks, files, cur>>

Vs == {<<sf, ch, st, r, c>> : sf \in {2, 5} \cup (IF Quick THEN {} ELSE {17}), ch \in {1, 2}, st \in {0, 5}, r \in {1, 2}, c \in {1, 2}}
Ok(v) == v[3] = 0 \/ v[3] >= Frame(v)
Block(v, n) == [k |-> "audio", v |-> v, ts |-> n, data |-> [i \in 1..(Stride(v) * v[5]) |-> 10 * n + i]]

Init == blocks = <<>> /\ files = <<>> /\ cur = <<>>
Read(v) ==
  LET b == Block(v, Len(blocks) + 1) IN
  /\ blocks' = Append(blocks, b)
  /\ IF cur # <<>> /\ Kind(cur[1].v) # Kind(v) THEN files' = Append(files, cur) /\ cur' = <<b>>
     ELSE files' = files /\ cur' = Append(cur, b)
Next == Len(blocks) < MaxBlocks /\ \E v \in {v \in Vs : Ok(v)} : Read(v)
Spec == Init /\ [][Next]_vars

All == IF cur = <<>> THEN files ELSE Append(files, cur)
\* reading block by block writes what the definition says
Agrees == All = Runs(blocks, <<>>)
\* all the samples, once, in order, in files of one format; the next file is of another one
Complete == Flat([i \in 1..Len(All) |-> Wav("", All[i]).data]) = Flat([i \in 1..Len(blocks) |-> Samples(blocks[i])])
Uniform == \A i \in 1..Len(All) : \A j \in 1..Len(All[i]) : Kind(All[i][j].v) = Kind(All[i][1].v)
Maximal == \A i \in 2..Len(All) : Kind(All[i][1].v) # Kind(All[i - 1][1].v)
Whole == \A i \in 1..Len(All) : LET w == Wav("", All[i]) IN w.size % w.fmt[5] = 0 /\ w.fmt[4] = w.fmt[3] * w.fmt[5]
=============================================================================
