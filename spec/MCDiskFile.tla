----------------------------- MODULE MCDiskFile -----------------------------
(***************************************************************************)
(* Design model of DiskFile: the current chunk and the position in it, the *)
(* recorded offset and size of each chunk (the size of the last one lags   *)
(* while it grows), and how operations walk over chunks. It refines the    *)
(* contiguous file: `flat` and `pos` are updated by the operations of one  *)
(* contiguous file only.                                                   *)
(***************************************************************************)
EXTENDS DiskFile, TLC, Json

CONSTANTS MaxChunks, MaxChunk, MaxTotal, MaxN, Vals, MaxLen, KeepHist,
          CanRead      \* files being created can be read

VARIABLES ch,          \* contents of the chunks
          off, size,   \* what the handler recorded of them
          idx, cp,     \* current chunk, position in it
          mode,        \* ro: opened, rw: reopened for updates, w: created
          flat, pos,   \* the contiguous file
          whole,       \* no chunk was forgotten
          hist
vars == <<ch, off, size, idx, cp, mode, flat, pos, whole, hist>>

Log(o) == hist' = IF KeepHist THEN Append(hist, o) ELSE hist
Room == KeepHist => Len(hist) < MaxLen
Chunks == UNION {[1..n -> Vals] : n \in 0..MaxChunk}
Files == {c \in UNION {[1..n -> Chunks] : n \in 1..MaxChunks} : Total(c) <= MaxTotal}
Last == Len(ch)

Setup(c, m) ==
  /\ ch = c /\ off = [k \in 1..Len(c) |-> Off(c, k)] /\ size = [k \in 1..Len(c) |-> Len(c[k])]
  /\ idx = 1 /\ cp = 0 /\ mode = m /\ flat = Flat(c) /\ pos = 0 /\ whole = TRUE /\ hist = <<>>
Init == (\E c \in Files : Setup(c, "ro")) \/ Setup(<<<<>>>>, "w")

---------------------------------------------------------------------------
\* The algorithms of DiskFile
Contains(k, o) == o >= off[k] /\ o < off[k] + size[k]
TrySet(k, o) == Contains(k, o) \/ (k = Last /\ IF mode = "ro" THEN o = off[k] + size[k] ELSE o >= off[k])
RECURSIVE WalkTo(_, _)
WalkTo(k, o) == IF k < Last /\ o >= off[k] + size[k] THEN WalkTo(k + 1, o) ELSE k

\* -> <<ok, chunk, position in chunk>>
DoSetPos(o) ==
  IF TrySet(idx, o) THEN <<TRUE, idx, o - off[idx]>>
  ELSE LET k == WalkTo(IF o < off[idx] THEN 1 ELSE idx, o)
       IN IF k # idx THEN IF TrySet(k, o) THEN <<TRUE, k, o - off[k]>> ELSE <<FALSE, k, 0>>
          ELSE <<FALSE, idx, cp>>
\* beyond the size known of the current chunk but still inside its file: only while it grows
DoSkip(n) == IF cp + n < size[idx] THEN <<TRUE, idx, cp + n>> ELSE DoSetPos(off[idx] + cp + n)

RECURSIVE DoRead(_, _, _, _)
DoRead(k, c, n, acc) ==
  LET got == ReadAt(ch[k], c, n)
  IN IF Len(got) = n \/ k = Last THEN <<acc \o got, k, c + Len(got)>>
     ELSE DoRead(k + 1, 0, n - Len(got), acc \o got)

RECURSIVE DoOver(_, _, _, _)
DoOver(c, k, p, d) ==   \* c: the contents of the chunks
  LET m == IF k = Len(c) THEN Len(d) ELSE MinI(Len(d), MaxI(size[k] - p, 0))
      c2 == [c EXCEPT ![k] = PutAt(@, p, SubSeq(d, 1, m))]
  IN IF m = Len(d) THEN <<c2, k, p + m>> ELSE DoOver(c2, k + 1, 0, SubSeq(d, m + 1, Len(d)))

---------------------------------------------------------------------------
NoContent == UNCHANGED <<ch, off, size, mode, flat, whole>>

SetPos(o) ==
  /\ Room
  /\ LET r == DoSetPos(o) ok == IF mode = "ro" THEN o >= 0 /\ o <= Len(flat) ELSE o >= 0
     IN /\ Assert(r[1] = ok, "setPos")
        /\ idx' = r[2] /\ cp' = r[3]
        /\ pos' = IF ok THEN o ELSE off[idx'] + cp'
  
  /\ Log([op |-> "setpos", o |-> o]) /\ NoContent
Skip(n) ==
  /\ Room
  /\ LET r == DoSkip(n) ok == IF mode = "ro" THEN pos + n <= Len(flat) ELSE TRUE
     IN /\ Assert(r[1] = ok, "skip")
        /\ idx' = r[2] /\ cp' = r[3]
        /\ pos' = IF ok THEN pos + n ELSE off[idx'] + cp'
  
  /\ Log([op |-> "skip", n |-> n]) /\ NoContent
Read(n) ==
  /\ Room /\ (mode = "w" => CanRead)
  /\ LET r == DoRead(idx, cp, n, <<>>)
     IN /\ Assert(r[1] = ReadAt(flat, pos, n), "read")
        /\ idx' = r[2] /\ cp' = r[3] /\ pos' = pos + Len(r[1])
  
  /\ Log([op |-> "read", n |-> n]) /\ NoContent
Over(n, v) ==
  /\ Room /\ mode # "ro" /\ Total(ch) + n <= MaxTotal /\ pos + n <= MaxTotal
  /\ LET d == [i \in 1..n |-> v] r == DoOver(ch, idx, cp, d)
     IN /\ (n = 0 \/ Assert(Len(r[1]) = Len(ch) /\ \A k \in 1..Len(ch) - 1 : Len(r[1][k]) = Len(ch[k]), "an overwrite moves no byte to another chunk"))
        /\ ch' = r[1] /\ (IF n = 0 THEN UNCHANGED <<idx, cp>> ELSE idx' = r[2] /\ cp' = r[3])
        /\ flat' = PutAt(flat, pos, d) /\ pos' = pos + n
  
  /\ Log([op |-> "overwrite", n |-> n]) /\ UNCHANGED <<off, size, mode, whole>>
\* in the current chunk; it only grows if it is the last one
Write(n, v) ==
  /\ Room /\ mode # "ro" /\ (idx < Last => cp + n <= size[idx]) /\ pos + n <= MaxTotal
  /\ LET d == [i \in 1..n |-> v]
     IN /\ ch' = WriteIn(ch, idx, cp, d) /\ cp' = cp + n
        /\ flat' = PutAt(flat, pos, d) /\ pos' = pos + n
  
  /\ Log([op |-> "write", n |-> n]) /\ UNCHANGED <<off, size, mode, idx, whole>>
Trunc ==
  /\ Room /\ mode # "ro"
  /\ ch' = Truncate(ch, idx, cp)
  /\ size' = [size EXCEPT ![idx] = cp]
  /\ off' = [k \in 1..Last |-> IF k <= idx THEN off[k] ELSE Off([i \in 1..Last |-> [j \in 1..size'[i] |-> 0]], k)]
  \* from the position to the end of the chunk
  /\ LET e == Off(ch, idx) + Len(ch[idx]) IN
       flat' = SubSeq(flat, 1, MinI(pos, Len(flat))) \o Zeros(MaxI(0, pos - Len(flat))) \o SubSeq(flat, MaxI(e, pos) + 1, Len(flat))
  
  /\ Log([op |-> "truncate"]) /\ UNCHANGED <<idx, cp, mode, pos, whole>>
AddChunk ==
  /\ Room /\ mode # "ro" /\ whole /\ idx = Last /\ cp = Len(ch[idx]) /\ Len(ch) < MaxChunks
  /\ ch' = Append(ch, <<>>)
  /\ LET s == [size EXCEPT ![idx] = cp] IN size' = Append(s, 0) /\ off' = Append(off, off[idx] + cp)
  /\ idx' = idx + 1 /\ cp' = 0 
  /\ mode' = "w"
  /\ Log([op |-> "addchunk"]) /\ UNCHANGED <<flat, pos, whole>>
\* not from an earlier chunk
AddRefused ==
  /\ Room /\ KeepHist /\ mode # "ro" /\ idx # Last
  /\ Log([op |-> "addchunk"]) /\ UNCHANGED <<ch, off, size, idx, cp, mode, flat, pos, whole>>
Reopen ==
  /\ Room /\ mode = "ro"
  /\ mode' = "rw" /\ cp' = 0 /\ pos' = off[idx] 
  /\ Log([op |-> "reopen"]) /\ UNCHANGED <<ch, off, size, idx, flat, whole>>
Forget(n) ==
  /\ Room /\ mode = "ro" /\ whole' = FALSE
  /\ LET k == Kept(ch, idx, n) IN
       /\ ch' = SubSeq(ch, 1, k) /\ off' = SubSeq(off, 1, k) /\ size' = SubSeq(size, 1, k)
       /\ flat' = SubSeq(flat, 1, Off(ch, k + 1))
  
  /\ Log([op |-> "forget", n |-> n]) /\ UNCHANGED <<idx, cp, mode, pos>>

\* (the history keeps TLC from drawing once for all, when S is constant)
Pick(S) == {RandomElement(IF hist = <<>> THEN S ELSE S)}
Dump == Len(hist) = MaxLen /\ PrintT("HIST " \o ToJson([ch |-> hist[1], ops |-> Tail(hist)])) /\ hist' = Append(hist, 0)
        /\ UNCHANGED <<ch, off, size, idx, cp, mode, flat, pos, whole>>
\* positions of interest: around the chunk boundaries and the end
Spots == UNION {{Off(ch, k) - 1, Off(ch, k), Off(ch, k) + 1} : k \in 1..Len(ch) + 1} \cup Pick(0..MaxTotal)
SimInit == /\ ch = <<<<>>>> /\ off = <<0>> /\ size = <<0>> /\ mode = "none" /\ flat = <<>> /\ idx = 1 /\ cp = 0 /\ pos = 0 /\ whole = TRUE /\ hist = <<>>
Start == /\ hist = <<>>
         /\ \/ \E n \in Pick(1..MaxChunks) : \E c \in {[k \in 1..n |-> RandomElement(IF hist = <<>> THEN 0..MaxChunk ELSE {k})]} :
                 LET f == [k \in 1..n |-> [i \in 1..c[k] |-> 1]] IN
                 /\ ch' = f /\ off' = [k \in 1..n |-> Off(f, k)] /\ size' = [k \in 1..n |-> Len(f[k])] /\ mode' = "ro" /\ flat' = Flat(f)
                 /\ UNCHANGED <<idx, cp, pos, whole>>
                 /\ hist' = <<[op |-> "open", ch |-> c]>>
            \/ mode' = "w" /\ UNCHANGED <<ch, off, size, idx, cp, flat, pos, whole>> /\ hist' = <<[op |-> "create", ch |-> <<>>]>>
Acts ==    \/ Dump
           \/ \E o \in Pick(Spots) : SetPos(o)
           \/ \E n \in Pick(0..MaxN) : Skip(n)
           \/ \E n \in Pick(0..MaxN) : Read(n)
           \/ \E n \in Pick(0..MaxN) : Read(n)
           \/ \E n \in Pick(0..MaxN) : Over(n, 1)
           \/ \E n \in Pick(0..MaxN) : Write(n, 1)
           \/ RandomElement(1..3) = 1 /\ Trunc
           \/ RandomElement(1..3) = 1 /\ Reopen
           \/ AddChunk \/ (RandomElement(1..3) = 1 /\ AddRefused)
           \/ RandomElement(1..8) = 1 /\ \E n \in Pick(Spots) : Forget(MaxI(0, n))
SimNext == Start \/ (hist # <<>> /\ Acts)
SimSpec == SimInit /\ [][SimNext]_vars

Next == \/ \E o \in -1..MaxTotal : SetPos(o)
        \/ \E n \in 0..MaxN : Skip(n) \/ Read(n)
        \/ \E n \in 0..MaxN, v \in Vals : Over(n, v) \/ Write(n, v)
        \/ Trunc \/ Reopen \/ AddChunk
        \/ \E n \in 0..MaxTotal : Forget(n)
Bounded == pos <= MaxTotal /\ Total(ch) <= MaxTotal
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
SameContent == Flat(ch) = flat
SamePosition == Off(ch, idx) + cp = pos
\* what the handler recorded: exact, except the size of a last chunk being written
Recorded == \A k \in 1..Len(ch) : off[k] = Off(ch, k) /\ (k < Len(ch) \/ mode = "ro" => size[k] = Len(ch[k])) /\ (k = Len(ch) => size[k] <= Len(ch[k]))
Inv == SameContent /\ SamePosition /\ Recorded
=============================================================================
