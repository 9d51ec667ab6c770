-------------------------- MODULE MCRecordFormat --------------------------
(* The rules by which blocks are sized and described, checked against what *)
(* is promised: a well formed record is given to the player as its own     *)
(* blocks, in order, each at its place, for any player and any history of  *)
(* reads. Simulated, it yields sequences of operations for the real code.  *)
EXTENDS RecordFormat, FiniteSets, Json

CONSTANTS MaxBlocks, MaxReads, Streams, KeepHist, MaxLen
VARIABLES fmt, cfmt, recs, player, reads, seen, hist
vars == <<fmt, cfmt, recs, player, reads, seen, hist>>

Blk(t, size) == [t |-> t, size |-> size, img |-> NoImage, codec |-> <<>>, aud |-> NoAudio, name |-> <<>>]
Img(f, p, w, h, size) == [Blk(IMAGE, size) EXCEPT !.img = [NoImage EXCEPT ![1] = f, ![2] = p, ![3] = w, ![4] = h]]
Aud(f, sf, ch, rate, n, size) == [Blk(AUDIO, size) EXCEPT !.aud = <<f, sf, ch, 0, rate, n>>]
\* <<block, fields of the layout>>
Universe == {<<Blk(CUSTOM, -1), <<>> >>, <<Blk(CUSTOM, 2), <<>> >>, <<Blk(EMPTY, -1), <<>> >>, <<Blk(LAYOUT, -1), <<F_SIZE>> >>, <<Blk(LAYOUT, -1), <<F_W, F_H, F_PIX>> >>,
             <<Img(RAW, 1, 1, 2, -1), <<>> >>, <<Img(RAW, 0, 0, 0, -1), <<>> >>, <<Img(2, 0, 0, 0, -1), <<>> >>, <<Img(VIDEO, 0, 0, 0, -1), <<>> >>,
             <<Aud(PCM, 5, 1, 8, 1, -1), <<>> >>, <<Aud(PCM, 5, 1, 8, 0, -1), <<>> >>, <<Aud(2, 0, 0, 0, 0, 3), <<>> >> }
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE Seqs(n - 1) \cup {Append(s, u) : s \in {s \in Seqs(n - 1) : Len(s) = n - 1}, u \in Universe}
Formats(us) == [blocks |-> [i \in 1..Len(us) |-> us[i][1]], fields |-> [i \in 1..Len(us) |-> IF us[i][1].t = LAYOUT THEN us[i][2] ELSE <<-1>>]]
Config == Formats(<< <<Blk(LAYOUT, -1), <<F_W, F_H, F_PIX>> >>, <<Blk(LAYOUT, -1), <<F_SIZE>> >> >>)
D == <<1, 3, 1>>  C == <<1, 2, 1>>
All == (C :> Config @@ D :> fmt)

\* the size a block really has: what is declared, or what the layouts say when they are right, or anything
RawHere(vals, k, w) == LET ls == SelectSeq([i \in 1..(k - 1) |-> k - i], LAMBDA i : fmt.blocks[i].t = LAYOUT /\ fmt.fields[i] # <<F_SIZE>>) IN
  IF ls = <<>> THEN w ELSE vals[ls[1]][1][1]
Lens(w) == {l \in [1..Len(fmt.blocks) -> 0..4] : \A k \in 1..Len(fmt.blocks) :
   LET b == fmt.blocks[k] IN CASE b.t = EMPTY -> l[k] = 0
                               [] b.t = LAYOUT -> l[k] = 4
                               [] BlockSize(b) # -1 -> l[k] = BlockSize(b)
                               [] b.t = IMAGE /\ b.img[1] = RAW -> l[k] \in 1..2
                               [] b.t = AUDIO -> l[k] \in {2, 4}
                               [] OTHER -> l[k] \in {0, 3}}
\* what layouts hold: sizes are those of the next block, images are described rightly
Vals(l) == [k \in 1..Len(fmt.blocks) |->
   IF fmt.blocks[k].t # LAYOUT THEN <<>>
   ELSE IF fmt.fields[k] = <<F_SIZE>> THEN << <<IF k < Len(l) THEN l[k + 1] ELSE 0>> >>
   ELSE LET next == SelectSeq([i \in 1..(Len(l) - k) |-> k + i], LAMBDA i : fmt.blocks[i].t = IMAGE /\ fmt.blocks[i].img[1] = RAW /\ BlockSize(fmt.blocks[i]) = -1) IN
        << <<IF next = <<>> THEN 1 ELSE l[next[1]]>>, <<1>>, <<1>> >>]
\* every undescribed raw image of the record is rightly described by the closest layout before it, or by the configuration of width w
Right(l, w) == \A k \in 1..Len(l) : fmt.blocks[k].t = IMAGE /\ fmt.blocks[k].img[1] = RAW /\ BlockSize(fmt.blocks[k]) = -1 => RawHere(Vals(l), k, w) = l[k]

Hows == {[stop |-> k, eat |-> e, plain |-> p, unsup |-> u, copy |-> FALSE, decode |-> FALSE] : k \in 0..MaxBlocks, e \in BOOLEAN, p \in {<<>>, <<"image">>}, u \in BOOLEAN}

Init == /\ fmt \in {Formats(us) : us \in Seqs(MaxBlocks) \ {<<>>}} /\ Used(fmt.blocks) > 0
        /\ cfmt = 0 /\ recs = <<>> /\ player = NewPlayer /\ reads = 0 /\ seen = [rec |-> <<>>, calls |-> <<>>, how |-> <<>>, w |-> 0, left |-> 0] /\ hist = <<>>
\* a configuration record is read, as a whole or up to its first layout, or none
ReadConfig == \E w \in 1..2, stop \in 0..1 :
  LET r == [s |-> 1, type |-> 2, ver |-> 1, ts |-> 1, lens |-> <<12, 4>>, vals |-> << << <<w>>, <<1>>, <<1>> >>, << <<7>> >> >>]
      x == Read(player, r, All, [stop |-> stop, eat |-> FALSE, plain |-> <<>>, unsup |-> TRUE, copy |-> FALSE, decode |-> FALSE]) IN
  /\ reads < MaxReads /\ player' = x.P /\ cfmt' = w /\ reads' = reads + 1 /\ UNCHANGED <<fmt, recs, hist>>
  /\ seen' = [rec |-> <<>>, calls |-> <<>>, how |-> <<>>, w |-> 0, left |-> 0]
ReadData == \E l \in Lens(cfmt), how \in Hows :
  /\ reads < MaxReads /\ Right(l, cfmt)
  /\ \E x \in {Read(player, [s |-> 1, type |-> 3, ver |-> 1, ts |-> 2, lens |-> l, vals |-> Vals(l)], All, how)} :
       player' = x.P /\ seen' = [rec |-> l, calls |-> x.calls, how |-> how, w |-> cfmt, left |-> x.left]
  /\ reads' = reads + 1 /\ UNCHANGED <<fmt, cfmt, recs, hist>>
Next == ReadConfig \/ ReadData
Spec == Init /\ [][Next]_vars

\* --- what is promised of the last data record read
Sum(l, k) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(l, k, Len(l)))
NonEmpty == SelectSeq([i \in 1..Len(fmt.blocks) |-> i], LAMBDA k : fmt.blocks[k].t # EMPTY)
InOrder == \A i \in 1..Len(seen.calls) : seen.calls[i].i + 1 = NonEmpty[i]
\* each block at its place, with its own size
OwnBytes == \A i \in 1..Len(seen.calls) : LET c == seen.calls[i] k == c.i + 1 IN
  /\ c.left = (IF c.k = "layout" THEN Sum(seen.rec, k + 1) ELSE Sum(seen.rec, k))
  /\ (c.k \in {"image", "audio", "custom"} => c.b.size = seen.rec[k])
\* blocks which size is declared, or said by the layout before
SizeSaid(k) == BlockSize(fmt.blocks[k]) # -1 \/ fmt.blocks[k].t = EMPTY \/ (k > 1 /\ fmt.blocks[k - 1].t = LAYOUT /\ F_SIZE \in {fmt.fields[k - 1][i] : i \in 1..Len(fmt.fields[k - 1])})
\* a custom block, or a jpeg image, is given unless its size is nowhere said and can't be what is left
Unknown == {k \in 1..Len(fmt.blocks) : fmt.blocks[k].t # EMPTY /\ BlockSize(fmt.blocks[k]) = -1}
Needed == \A i \in 1..Len(seen.calls) : LET c == seen.calls[i] k == c.i + 1 IN
  c.k = "unsup" /\ fmt.blocks[k].t \in {CUSTOM} => ~SizeSaid(k) /\ \E j \in Unknown : j > k
\* everything is given to a player accepting everything, as long as blocks can be described
Whole == seen.rec # <<>> /\ seen.how.stop = 0 /\ (\A i \in 1..Len(seen.calls) : seen.calls[i].k # "unsup") => Len(seen.calls) = Len(NonEmpty) /\ seen.left = 0
Promised == seen.rec # <<>> => InOrder /\ OwnBytes /\ Needed /\ Whole

\* --- sequences of operations: records of some stream, type and version, files opened anew, reads
\* (the history keeps TLC from drawing once for all, when S is constant)
Pick(S) == {RandomElement(IF hist = <<>> THEN S ELSE S)}
SimInit == fmt = 0 /\ cfmt = 0 /\ recs = <<>> /\ player = 0 /\ reads = 0 /\ seen = 0 /\ hist = <<>>
SimNext ==
  /\ Len(hist) < MaxLen
  /\ IF Len(hist) < MaxLen \div 3 THEN
       \E s \in Pick(Streams), type \in Pick({1, 2, 2, 3, 3, 3}), ver \in Pick({1, 1, 2}) :
         hist' = Append(hist, [op |-> "rec", s |-> s, type |-> type, ver |-> ver])
     ELSE IF Len(hist) = MaxLen \div 3 \/ RandomElement(1..20) = 1 THEN hist' = Append(hist, [op |-> "open"])
     ELSE \E stop \in Pick({0, 0, 0, 0, 0, 1, 2, 3, 4}), eat \in Pick(BOOLEAN), u \in Pick({TRUE, TRUE, FALSE}), m \in Pick(0..11), order \in Pick({1, 1, 1, 0}) :
         hist' = Append(hist, [op |-> "read", stop |-> stop, eat |-> eat, plain |-> IF m >= 8 THEN <<>> ELSE SelectSeq(<<"image", "audio", "custom">>, LAMBDA k : IF k = "image" THEN m % 2 = 1 ELSE IF k = "audio" THEN (m \div 2) % 2 = 1 ELSE m \div 4 = 1), unsup |-> u, next |-> order = 1])
  /\ IF Len(hist') = MaxLen THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE
  /\ UNCHANGED <<fmt, cfmt, recs, player, reads, seen>>
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================
