------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* Design model of RecordFileReader: the caches behind lookups (an index   *)
(* per stream made on first use, and the last position found for a stream  *)
(* and type), and piecewise reading through one decompressor shared by all *)
(* records. Whatever the history, lookups give what Reader defines, and    *)
(* each record delivers its own bytes.                                     *)
(***************************************************************************)
EXTENDS Reader, Json

CONSTANTS MaxRecs, Streams, Types, MaxSize, MaxLen, KeepHist, Reset
ASSUME Reset \in BOOLEAN \* the decompressor is reset after each record

VARIABLES file,   \* the records of the open file, in presentation order; <<>> when closed
          sidx,   \* index per stream, once made
          last,   \* <<s, ty>> -> <<n, k>>: the n-th (from 0) of type ty is at position k of the stream index
          cell,   \* the decompressor: cells <<record, number>> read from the file and not consumed
          disk,   \* next cell in the file
          rec,    \* record being read, 0: none
          got,    \* bytes delivered to the player, as <<record, number>>
          hist
vars == <<file, sidx, last, cell, disk, rec, got, hist>>

EmptyFn == [x \in {} |-> 0]
Log(o) == hist' = IF KeepHist THEN Append(hist, o) ELSE hist
Room == KeepHist => Len(hist) < MaxLen

RecSet == {[s |-> s, ty |-> ty, ts |-> 0, sz |-> z] : s \in Streams, ty \in Types, z \in 0..MaxSize}
TheFiles == UNION {[1..n -> RecSet] : n \in 1..MaxRecs}

Init == /\ file = <<>> /\ sidx = <<>> /\ last = EmptyFn /\ cell = <<>> /\ disk = 0 /\ rec = 0 /\ got = <<>> /\ hist = <<>>

Open == /\ Room /\ rec = 0 /\ file = <<>>
        /\ IF KeepHist THEN \E n \in 1..3 : Log([op |-> "open", f |-> n]) /\ file' = [k \in 1..MaxRecs |-> [s |-> 1, ty |-> 3, ts |-> 0, sz |-> MaxSize]]
           ELSE file' \in TheFiles /\ UNCHANGED hist
        /\ sidx' = <<>> /\ last' = EmptyFn
        /\ UNCHANGED <<cell, disk, rec, got>>
Close == /\ Room /\ file # <<>> /\ rec = 0
         /\ file' = <<>> /\ sidx' = <<>> /\ last' = EmptyFn
         /\ Log([op |-> "close"])
         /\ UNCHANGED <<cell, disk, rec, got>>

Sidx == IF sidx = <<>> THEN [s \in Streams |-> OfStream(file, s)] ELSE sidx[1]

\* getRecord(stream, type, n): start from the last position found when it isn't beyond n
RECURSIVE Scan(_, _, _, _, _)
Scan(ix, ty, n, hits, k) ==
  IF k >= Len(ix) THEN <<-1, k>>
  ELSE IF file[ix[k + 1] + 1].ty = ty THEN IF hits = n THEN <<ix[k + 1], k>> ELSE Scan(ix, ty, n, hits + 1, k + 1)
  ELSE Scan(ix, ty, n, hits, k + 1)

Find(s, ty, n) ==
  LET ix == Sidx[s]
      c == IF <<s, ty>> \in DOMAIN last /\ n >= last[<<s, ty>>][1] THEN last[<<s, ty>>] ELSE <<0, 0>>
  IN IF n >= Len(ix) THEN <<-1, 0>> ELSE Scan(ix, ty, n, c[1], c[2])

Lookup(s, ty, n) ==
  /\ Room /\ file # <<>> /\ rec = 0
  /\ LET f == Find(s, ty, n) IN
       last' = IF f[1] >= 0 THEN [x \in DOMAIN last \cup {<<s, ty>>} |-> IF x = <<s, ty>> THEN <<n, f[2]>> ELSE last[x]] ELSE last
  /\ sidx' = <<Sidx>>
  /\ Log([op |-> "q", s |-> s, ty |-> ty, n |-> n])
  /\ UNCHANGED <<file, cell, disk, rec, got>>

\* a compressed record has one cell per two bytes, plus one for an odd one
Cells(r) == (file[r].sz + 1) \div 2
Start(r) ==
  /\ Room /\ file # <<>> /\ rec = 0 /\ r <= Len(file)
  /\ rec' = r /\ disk' = 1 /\ got' = <<>>
  /\ Log([op |-> "read", i |-> r - 1])
  /\ UNCHANGED <<file, sidx, last, cell>>

Unread == file[rec].sz - Len(got)

\* asks for n bytes: cells are read ahead by any amount
Piece(n, ahead) ==
  /\ Room /\ rec # 0
  /\ IF n > Unread THEN UNCHANGED <<cell, disk, got>>
     ELSE \E upto \in disk..(Cells(rec) + 1) :
        /\ LET more == [k \in 1..(upto - disk) |-> <<rec, disk + k - 1>>]
               in == cell \o more
               \* bytes that the cells hold: the first one may be half consumed
               half == IF Len(got) % 2 = 1 THEN 1 ELSE 0
               need == (half + n + 1) \div 2
           IN /\ need <= Len(in)
              /\ (ahead = 0 => upto = disk \/ Len(cell) + upto - disk = need)
              /\ got' = got \o [k \in 1..n |-> LET c == in[(half + k - 1) \div 2 + 1] IN <<c[1], 2 * c[2] - 1 + ((half + k - 1) % 2)>>]
              /\ cell' = SubSeq(in, (half + n) \div 2 + 1, Len(in))
              /\ disk' = upto
  /\ Log([op |-> "piece", n |-> n])
  /\ UNCHANGED <<file, sidx, last, rec>>

Finish == /\ Room /\ rec # 0
          /\ rec' = 0 /\ disk' = 0 /\ got' = <<>>
          /\ cell' = IF Reset THEN <<>> ELSE cell
          /\ Log([op |-> "done"])
          /\ UNCHANGED <<file, sidx, last>>

\* simulation: one history printed when it is long enough
Dump == Len(hist) = MaxLen /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, 0) /\ UNCHANGED <<file, sidx, last, cell, disk, rec, got>>
\* (the history keeps TLC from drawing once for all, when S is constant)
Pick(S) == {RandomElement(IF hist = <<>> THEN S ELSE S)}
SimNext == \/ Dump
           \/ Open
           \/ RandomElement(1..12) = 1 /\ Close
           \/ Finish
           \/ \E s \in Pick(Streams), ty \in Pick(Types), n \in Pick(0..MaxRecs) : Lookup(s, ty, n)
           \/ \E r \in Pick(1..MaxRecs) : Start(r)
SimSpec == Init /\ [][SimNext]_vars

Next == \/ Open \/ Close \/ Finish
        \/ \E s \in Streams, ty \in Types, n \in 0..MaxRecs : Lookup(s, ty, n)
        \/ \E r \in 1..MaxRecs : Start(r)
        \/ \E n \in 0..(MaxSize + 1), a \in {0, 1} : Piece(n, a)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
LookupsAgree == file # <<>> /\ rec = 0 =>
  \A s \in Streams, ty \in Types, n \in 0..MaxRecs : Find(s, ty, n)[1] = NthOfType(file, s, ty, n)
OwnBytes == rec # 0 => got = [k \in 1..Len(got) |-> <<rec, k>>]
Inv == LookupsAgree /\ OwnBytes
=============================================================================
