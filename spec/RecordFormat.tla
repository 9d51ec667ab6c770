---------------------------- MODULE RecordFormat ----------------------------
(* Record formats: sequences of content blocks, their text form, their     *)
(* sizes, and what a player is given when a record with a format is read.  *)
(* A block: [t: content type, size: declared size or -1,                   *)
(*  img: <<format, pixel, width, height, stride, stride 2, quality (255:   *)
(*        none), key frame time (quarters, -1: none), key frame index>>,   *)
(*  codec: bytes, aud: <<format, sample format, channels, stride, rate,    *)
(*        count>>, name: bytes]                                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CUSTOM == 0  EMPTY == 1  LAYOUT == 2  IMAGE == 3  AUDIO == 4
RAW == 1  VIDEO == 4  CODEC == 6
PCM == 1

\* --- images
\* bytes of a pixel, or of a group of pixels: <<group, bytes>> on a line; chroma planes
Packing == << <<1, 1>>, <<1, 3>>, <<1, 4>>, <<1, 3>>, <<1, 1>>, <<1, 4>>, <<1, 6>>, <<1, 6>>, <<1, 2>>, <<1, 2>>, <<1, 2>>, <<1, 12>>, <<1, 8>>, <<2, 4>>,
              <<1, 1>>, <<1, 16>>, <<1, 1>>, <<4, 5>>, <<4, 5>>, <<4, 5>>, <<1, 1>>, <<1, 1>>, <<4, 5>>, <<1, 1>>, <<1, 2>>, <<1, 1>> >>
Planes(p) == IF p = 5 THEN 3 ELSE IF p \in {21, 22} THEN 2 ELSE 1
Half(n) == (n + 1) \div 2
LineStride(g) == IF g[5] > 0 THEN g[5] ELSE IF g[2] = 0 THEN 0 ELSE ((g[3] + Packing[g[2]][1] - 1) \div Packing[g[2]][1]) * Packing[g[2]][2]
ChromaStride(g) == IF Planes(g[2]) = 1 THEN 0 ELSE IF g[6] > 0 THEN g[6] ELSE IF g[2] = 5 THEN Half(g[3]) ELSE 2 * Half(g[3])
RawSize(g) == IF g[2] = 0 \/ g[3] = 0 \/ g[4] = 0 THEN -1
              ELSE LineStride(g) * g[4] + (Planes(g[2]) - 1) * ChromaStride(g) * Half(g[4])

\* --- audio
Bits == << 8, 8, 8, 8, 16, 16, 16, 16, 24, 24, 24, 24, 32, 32, 32, 32, 32, 32, 64, 64 >>
SampleBytes(sf) == IF sf = 0 THEN 0 ELSE Bits[sf] \div 8
FrameStride(a) == IF a[4] # 0 THEN a[4] ELSE SampleBytes(a[2]) * a[3]
PcmSize(a) == IF FrameStride(a) > 0 /\ a[6] > 0 THEN FrameStride(a) * a[6] ELSE -1

\* --- sizes
BlockSize(b) == CASE b.t = EMPTY -> 0
                  [] b.size # -1 -> b.size
                  [] b.t = IMAGE /\ b.img[1] = RAW -> RawSize(b.img)
                  [] b.t = AUDIO /\ b.aud[1] = PCM -> PcmSize(b.aud)
                  [] OTHER -> -1
Add(x, y) == IF x = -1 \/ y = -1 THEN -1 ELSE x + y
\* the size of blocks k and after
SizeFrom(blocks, k) == FoldRight(LAMBDA b, acc : Add(BlockSize(b), acc), SubSeq(blocks, k, Len(blocks)), 0)
\* the size of block k when `left` bytes are left for it and the following ones
SizeOf(blocks, k, left) ==
  LET own == BlockSize(blocks[k]) after == SizeFrom(blocks, k + 1) IN
  IF own # -1 THEN (IF own <= left THEN own ELSE -1) ELSE IF after # -1 /\ after <= left THEN left - after ELSE -1
Used(blocks) == FoldLeft(LAMBDA acc, k : IF blocks[k].t = EMPTY THEN acc ELSE k, 0, [i \in 1..Len(blocks) |-> i])

\* --- text: these names are in files, and may never change
ContentNames == << "custom", "empty", "data_layout", "image", "audio" >>
ImageNames == << "raw", "jpg", "png", "video", "jxl", "custom_codec" >>
PixelNames == << "grey8", "bgr8", "depth32f", "rgb8", "yuv_i420_split", "rgba8", "rgb10", "rgb12", "grey10", "grey12", "grey16", "rgb32F", "scalar64F", "yuy2", "rgb_ir_4x4", "rgba32F",
   "bayer8_rggb", "raw10", "raw10_bayer_rggb", "raw10_bayer_bggr", "yuv_420_nv21", "yuv_420_nv12", "grey10packed", "bayer8_bggr", "bayer10_gbrg", "bayer8_gbrg" >>
AudioNames == << "pcm", "opus" >>
SampleNames == << "int8", "uint8", "uint8alaw", "uint8mulaw", "int16le", "uint16le", "int16be", "uint16be", "int24le", "uint24le", "int24be", "uint24be", "int32le", "uint32le", "int32be", "uint32be",
   "float32le", "float32be", "float64le", "float64be" >>
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Char(c) == SubSeq(Printable, c - 31, c - 31)
Hex(n) == SubSeq("0123456789ABCDEF", n + 1, n + 1)
Escaped(c) == IF c <= 32 \/ c >= 127 \/ c \in {34, 37, 39, 43, 47, 92} THEN "%" \o Hex(c \div 16) \o Hex(c % 16) ELSE Char(c)
Text(codes, F(_)) == FoldLeft(LAMBDA acc, c : acc \o F(c), "", codes)
Quarter == << "000000000", "250000000", "500000000", "750000000" >>
If(c, s) == IF c THEN s ELSE ""
ImageText(b) == LET g == b.img IN
  IF g[1] = 0 THEN ""
  ELSE "/" \o ImageNames[g[1]] \o If(g[3] > 0 /\ g[4] > 0, "/" \o ToString(g[3]) \o "x" \o ToString(g[4])) \o (IF g[2] > 0 THEN "/pixel=" \o PixelNames[g[2]] ELSE "")
    \o If(g[1] \in {RAW, VIDEO, CODEC}, If(g[5] > 0, "/stride=" \o ToString(g[5])) \o If(g[6] > 0, "/stride_2=" \o ToString(g[6])))
    \o If(g[1] \in {VIDEO, CODEC}, If(b.codec # <<>>, "/codec=" \o Text(b.codec, Escaped)) \o If(g[7] <= 100, "/codec_quality=" \o ToString(g[7])))
    \o If(g[1] = VIDEO /\ g[8] # -1, "/keyframe_timestamp=" \o ToString(g[8] \div 4) \o "." \o Quarter[(g[8] % 4) + 1] \o "/keyframe_index=" \o ToString(g[9]))
AudioText(b) == LET a == b.aud IN
  IF a[1] = 0 THEN ""
  ELSE "/" \o AudioNames[a[1]] \o (IF a[2] > 0 THEN "/" \o SampleNames[a[2]] ELSE "") \o If(a[3] # 0, "/channels=" \o ToString(a[3])) \o If(a[5] # 0, "/rate=" \o ToString(a[5]))
    \o If(a[6] # 0, "/samples=" \o ToString(a[6])) \o If(FrameStride(a) # SampleBytes(a[2]) * a[3], "/stride=" \o ToString(a[4]))
BlockText(b) == ContentNames[b.t + 1] \o If(b.size # -1, "/size=" \o ToString(b.size))
  \o (CASE b.t = IMAGE -> ImageText(b) [] b.t = AUDIO -> AudioText(b) [] b.t = CUSTOM /\ b.name # <<>> -> "/format=" \o Text(b.name, Char) [] OTHER -> "")
FormatText(blocks) == IF blocks = <<>> THEN "empty" ELSE FoldLeft(LAMBDA acc, b : acc \o "+" \o BlockText(b), BlockText(blocks[1]), Tail(blocks))
RecordNames == << "State", "Configuration", "Data", "Tags" >>
FormatTag(type, ver) == "RF:" \o RecordNames[type] \o ":" \o ToString(ver)
LayoutTag(type, ver, k) == "DL:" \o RecordNames[type] \o ":" \o ToString(ver) \o ":" \o ToString(k - 1)

\* what a block says about itself, however it was built
Shown(b) == [t |-> b.t, size |-> BlockSize(b),
  img |-> IF b.t # IMAGE THEN <<>> ELSE <<b.img[1], b.img[2], b.img[3], b.img[4], LineStride(b.img), ChromaStride(b.img), b.img[7], b.img[8], b.img[9]>>,
  codec |-> IF b.t = IMAGE THEN b.codec ELSE <<>>,
  aud |-> IF b.t # AUDIO THEN <<>> ELSE <<b.aud[1], b.aud[2], b.aud[3], FrameStride(b.aud), b.aud[5], b.aud[6]>>,
  name |-> IF b.t = CUSTOM THEN b.name ELSE <<>>]

\* --- conventions: fields of layouts saying what other blocks are. Values are sequences of numbers
F_W == 1  F_H == 2  F_S == 3  F_S2 == 4  F_PIX == 5  F_CODEC == 6  F_Q == 7  F_BPP == 8  F_BPP8 == 9  F_KTS == 10  F_KIX == 11
F_AF == 12  F_SF == 13  F_AS == 14  F_CH == 15  F_RATE == 16  F_COUNT == 17  F_SIZE == 19
\* L: [fields, vals] of a layout
Pos(L, f) == FoldLeft(LAMBDA acc, i : IF L.fields[i] = f /\ acc = 0 THEN i ELSE acc, 0, [i \in 1..Len(L.fields) |-> i])
Has(L, f) == Pos(L, f) # 0
Num(L, f) == IF Has(L, f) THEN L.vals[Pos(L, f)][1] ELSE 0
Str(L, f) == IF Has(L, f) THEN L.vals[Pos(L, f)] ELSE <<>>

NoImage == <<0, 0, 0, 0, 0, 0, 255, -1, 0>>
NoAudio == <<0, 0, 0, 0, 0, 0>>
ImageOf(g, codec, size) == [t |-> IMAGE, size |-> size, img |-> g, codec |-> codec, aud |-> NoAudio, name |-> <<>>]
AudioOf(a, size) == [t |-> AUDIO, size |-> size, img |-> NoImage, codec |-> <<>>, aud |-> a, name |-> <<>>]
None == [t |-> -1]

OldPixel(n) == IF n = 1 THEN 1 ELSE IF n = 3 THEN 4 ELSE IF n = 4 THEN 3 ELSE IF n = 8 THEN 13 ELSE 0
\* the image a layout describes for block b, which has `size` bytes
ImageFrom(L, b, size) ==
  LET w == Num(L, F_W)
      h == IF w > 0 THEN Num(L, F_H) ELSE 0
      bpp == IF Num(L, F_BPP) > 0 THEN Num(L, F_BPP) ELSE Num(L, F_BPP8)
      pix == IF w = 0 \/ h = 0 THEN 0 ELSE IF Num(L, F_PIX) \in 1..26 THEN Num(L, F_PIX) ELSE OldPixel(bpp)
      full == w > 0 /\ h > 0 /\ pix > 0
      own == Str(L, F_CODEC)
      codec == IF own # <<>> THEN own ELSE b.codec
      q == IF Has(L, F_Q) /\ Num(L, F_Q) <= 100 THEN Num(L, F_Q) ELSE b.img[7]
      fmt == b.img[1]
      g == <<fmt, pix, w, h, Num(L, F_S), Num(L, F_S2), q, -1, 0>>
  IN IF fmt = RAW THEN (IF full THEN ImageOf([g EXCEPT ![7] = 255], <<>>, -1) ELSE None)
     ELSE IF size = -1 THEN None
     ELSE IF fmt = VIDEO THEN (IF codec # <<>> /\ full THEN ImageOf(g, codec, size) ELSE None)
     ELSE IF own # <<>> \/ (codec # <<>> /\ full) THEN ImageOf(g, codec, size) ELSE None

\* the audio a layout describes; count: sample frames said by the layout just before the block
AudioFrom(L, count) ==
  LET af == IF Has(L, F_AF) THEN Num(L, F_AF) ELSE PCM
      sf == Num(L, F_SF)  ch == Num(L, F_CH)  rate == Num(L, F_RATE)  st == Num(L, F_AS)
      min == SampleBytes(sf) * ch
  IN IF af \in 1..2 /\ sf \in 1..20 /\ ch > 0 /\ rate > 0 /\ (st = 0 \/ (st >= min /\ st <= min + 3 * ch))
     THEN AudioOf(<<af, sf, ch, st, rate, IF Num(L, F_COUNT) > 0 THEN Num(L, F_COUNT) ELSE count>>, -1) ELSE None

\* --- reading a record, block by block
\* P, the player: held[<<stream, type, version>>][k]: layout k as last read ([fields, vals] or None); last[<<stream, type>>]; at[key]: time of the last record read;
\* img, aud [<<stream, type, version, k>>]: where the description of a block was found: <<key, k>>
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NewPlayer == [held |-> <<>>, last |-> <<>>, at |-> <<>>, img |-> <<>>, aud |-> <<>>]
At(P, loc) == P.held[loc[1]][loc[2]]

\* first location of locs (in order) giving a block, remembering the last one tried: <<block, location or none>>
Search(P, locs, Give(_)) ==
  FoldLeft(LAMBDA acc, loc : IF acc[1].t # -1 THEN acc ELSE <<Give(At(P, loc)), <<loc>> >>, <<None, <<>> >>, SelectSeq(locs, LAMBDA loc : At(P, loc).t # -1))
Down(key, from, to) == [i \in 1..(from - to + 1) |-> <<key, from - i + 1>>]

\* where to look for the description of block k of a record: in the record itself, then in the last configuration record
ConfigLocs(P, rec, formats) ==
  LET c == Get(P.last, <<rec.s, 2>>, <<>>) IN
  IF rec.type = 2 \/ c = <<>> THEN <<>> ELSE IF Get(P.at, c, 2000000000) > rec.ts THEN <<>> ELSE Down(c, Used(formats[c].blocks), 1)

NextSpec(P, key, k) == IF k > 1 THEN P.held[key][k - 1] ELSE None
FindSize(P, key, blocks, k, left) == LET n == NextSpec(P, key, k) IN
  IF n.t # -1 /\ Has(n, F_SIZE) THEN Num(n, F_SIZE) ELSE SizeOf(blocks, k, left)

Call(kind, k, b) == [k |-> kind, i |-> k, b |-> b]
\* the call made for an image block, and where its description was found
ImageCall(P, rec, key, formats, k, left) ==
  LET blocks == formats[key].blocks
      b == blocks[k]
      id == <<key, k>>
      size == IF b.img[1] = RAW THEN -1 ELSE FindSize(P, key, blocks, k, left)
      prev == NextSpec(P, key, k)
      Video(g) == IF g.img[1] = VIDEO /\ prev.t # -1 /\ Has(prev, F_KTS) /\ Has(prev, F_KIX) THEN [g EXCEPT !.img[8] = Num(prev, F_KTS), !.img[9] = Num(prev, F_KIX)] ELSE g
      Give(L) == ImageFrom(L, b, size)
      known == IF id \in DOMAIN P.img THEN Give(At(P, P.img[id])) ELSE None
      found == Search(P, Down(key, k - 1, 1) \o ConfigLocs(P, rec, formats), Give)
  IN IF b.img[1] = RAW /\ BlockSize(b) # -1 THEN <<Call("image", k, b), <<>> >>
     ELSE IF known.t # -1 THEN <<Call("image", k, Video(known)), <<>> >>
     ELSE IF b.img[1] \in {RAW, VIDEO, CODEC} THEN (IF found[1].t # -1 THEN <<Call("image", k, Video(found[1])), found[2]>> ELSE <<Call("unsup", k, b), found[2]>>)
     ELSE IF size # -1 THEN <<Call("image", k, [b EXCEPT !.size = size]), <<>> >> ELSE <<Call("unsup", k, b), <<>> >>

\* the call made for audio known to be c
AudioSized(c, k, size) ==
  LET a == c.aud IN
  IF a[1] # PCM THEN (IF size # -1 THEN Call("audio", k, AudioOf(a, size)) ELSE Call("unsup", k, c))
  ELSE IF a[6] = 0 THEN
    (IF size # -1 /\ FrameStride(a) > 0 THEN (IF size % FrameStride(a) = 0 THEN Call("audio", k, AudioOf([a EXCEPT ![6] = size \div FrameStride(a), ![4] = FrameStride(a)], -1)) ELSE Call("unsup", k, c))
     ELSE Call("unsup", k, c))
  ELSE IF PcmSize(a) # -1 /\ size \in {PcmSize(a), -1} THEN Call("audio", k, AudioOf(a, PcmSize(a))) ELSE Call("unsup", k, c)
AudioCall(P, rec, key, formats, k, left) ==
  LET blocks == formats[key].blocks
      b == blocks[k]
      id == <<key, k>>
      size == FindSize(P, key, blocks, k, left)
      prev == NextSpec(P, key, k)
      Give(L) == AudioFrom(L, IF prev.t # -1 THEN Num(prev, F_COUNT) ELSE 0)
      known == IF id \in DOMAIN P.aud THEN Give(At(P, P.aud[id])) ELSE None
      found == Search(P, (IF k > 1 THEN << <<key, k - 1>> >> ELSE <<>>) \o ConfigLocs(P, rec, formats), Give)
  IN IF b.aud[1] = PCM /\ b.aud[2] # 0 /\ b.aud[3] # 0 THEN <<AudioSized(b, k, size), <<>> >>
     ELSE IF known.t # -1 THEN <<AudioSized(known, k, size), <<>> >>
     ELSE IF found[1].t # -1 THEN <<AudioSized(found[1], k, size), found[2]>> ELSE <<Call("unsup", k, b), found[2]>>

CustomCall(P, key, blocks, k, left) ==
  LET b == blocks[k] size == FindSize(P, key, blocks, k, left) IN
  IF BlockSize(b) # -1 THEN Call("custom", k, b) ELSE IF size # -1 THEN Call("custom", k, [b EXCEPT !.size = size]) ELSE Call("unsup", k, b)

\* a player: stop: block after which it stops (0: none); eat: whether it reads that block; plain: kinds of blocks it leaves to the default handling; unsup: whether it accepts unsupported blocks
\* rec: [s, type, ver, ts, lens, vals]; S: [P, calls, off, go, size of the record]
\* a filter rewriting records reads blocks of known size one by one, and all that's left otherwise
\* (a block which isn't as large as what was written: nothing that follows makes sense any more)
CopyBlock(S, rec, k, c) ==
  LET n == BlockSize(c.b) known == n # -1 odd == known /\ n # rec.lens[k] IN
  [S EXCEPT !.off = IF odd THEN @ ELSE IF known THEN @ + n ELSE S.total, !.odd = @ \/ odd, !.go = known /\ ~odd]
\* a check that everything can be decoded: uncompressed images of known size can, what was written in place of compressed ones can't;
\* other blocks only need a size
DecodeBlock(S, rec, k, c) ==
  LET n == BlockSize(c.b) known == n # -1 odd == known /\ n # rec.lens[k] image == c.k = "image" good == known /\ ~odd /\ (IF image THEN c.b.img[1] = RAW ELSE TRUE) IN
  [S EXCEPT !.off = IF good THEN @ + n ELSE @, !.odd = @ \/ odd, !.go = good, !.failed = @ \/ ~good, !.images = IF image /\ good THEN @ + 1 ELSE @]
Consume(S, rec, how, k, c) ==
  IF how.copy THEN CopyBlock(S, rec, k, c) ELSE IF how.decode THEN DecodeBlock(S, rec, k, c) ELSE
  LET n == BlockSize(c.b)
      left == S.total - S.off
      direct == c.k # "unsup" /\ c.k \notin {how.plain[i] : i \in 1..Len(how.plain)}
      kind == IF direct THEN c.k ELSE "unsup"
      stopped == how.stop = k
      \* read by the player, or skipped by the default handling of unsupported blocks
      eats == IF direct THEN (~stopped \/ how.eat) /\ n = rec.lens[k] ELSE how.unsup /\ ~stopped /\ n # -1 /\ n = rec.lens[k]
  IN [S EXCEPT !.calls = Append(@, [k |-> kind, i |-> k - 1, left |-> left, b |-> Shown(c.b), ok |-> IF direct /\ eats THEN n <= left ELSE FALSE, vals |-> <<>>]),
               !.off = IF eats THEN S.off + n ELSE S.off,
               !.go = IF direct THEN ~stopped /\ eats ELSE eats]
Step(S, rec, key, formats, how, k) ==
  LET f == formats[key] b == f.blocks[k] left == S.total - S.off IN
  CASE b.t = EMPTY -> S
    [] b.t = LAYOUT ->
       (IF f.fields[k] = <<-1>> THEN [S EXCEPT !.go = FALSE]
        ELSE [S EXCEPT !.P.held[key][k] = [t |-> LAYOUT, fields |-> f.fields[k], vals |-> rec.vals[k]],
                       !.calls = Append(@, [k |-> "layout", i |-> k - 1, left |-> left - rec.lens[k], b |-> Shown(b), ok |-> TRUE, vals |-> rec.vals[k]]),
                       !.off = S.off + rec.lens[k], !.go = how.stop # k])
    [] b.t = IMAGE -> (LET c == ImageCall(S.P, rec, key, formats, k, left) IN
                       Consume([S EXCEPT !.P.img = IF c[2] = <<>> THEN @ ELSE Put(@, <<key, k>>, c[2][1])], rec, how, k, c[1]))
    [] b.t = AUDIO -> (LET c == AudioCall(S.P, rec, key, formats, k, left) IN
                       Consume([S EXCEPT !.P.aud = IF c[2] = <<>> THEN @ ELSE Put(@, <<key, k>>, c[2][1])], rec, how, k, c[1]))
    [] OTHER -> Consume(S, rec, how, k, CustomCall(S.P, key, f.blocks, k, left))

Total(rec) == FoldLeft(LAMBDA acc, n : acc + n, 0, rec.lens)
\* reading rec: the player after, and the calls made
Read(P, rec, formats, how) ==
  LET key == <<rec.s, rec.type, rec.ver>>
      f == formats[key]
      n == Used(f.blocks)
      held == IF key \in DOMAIN P.held THEN P.held ELSE Put(P.held, key, [k \in 1..Len(f.blocks) |-> None])
      S0 == [P |-> [P EXCEPT !.held = held, !.last = Put(@, <<rec.s, rec.type>>, key)], calls |-> <<>>, off |-> 0, go |-> TRUE, odd |-> FALSE, failed |-> FALSE, images |-> 0, total |-> Total(rec)]
      S == FoldLeft(LAMBDA acc, k : IF acc.go THEN TLCEval(Step(acc, rec, key, formats, how, k)) ELSE acc, S0, [i \in 1..n |-> i])
  IN [P |-> [S.P EXCEPT !.at = Put(@, key, rec.ts)], calls |-> S.calls, left |-> S.total - S.off, odd |-> S.odd, failed |-> S.failed, images |-> S.images]

(***************************************************************************)
(* Decoding everything: records that can't be decoded to their last byte,    *)
(* records without a format that are not empty, images decoded. Nothing is    *)
(* said (odd) when blocks do not have the size of what was written.           *)
(***************************************************************************)
DecodeHow == [stop |-> 0, eat |-> TRUE, plain |-> <<>>, unsup |-> TRUE, copy |-> FALSE, decode |-> TRUE]
DecodeRecord(acc, rec, formats) ==
  LET key == <<rec.s, rec.type, rec.ver>>
      has == key \in DOMAIN formats /\ (IF key \in DOMAIN formats THEN Used(formats[key].blocks) > 0 ELSE FALSE)
  IN IF ~has THEN [acc EXCEPT !.bad = @ + (IF Total(rec) > 0 THEN 1 ELSE 0)]
     ELSE LET x == TLCEval(Read(acc.P, rec, formats, DecodeHow))
          IN [acc EXCEPT !.P = x.P, !.bad = @ + (IF x.failed \/ x.left > 0 THEN 1 ELSE 0), !.images = @ + x.images, !.odd = @ \/ x.odd]
DecodeAll(recs, formats) ==
  FoldLeft(LAMBDA acc, rec : TLCEval(DecodeRecord(acc, rec, formats)), [P |-> NewPlayer, bad |-> 0, images |-> 0, odd |-> FALSE], recs)

(***************************************************************************)
(* Copying with a filter that rewrites records: records kept verbatim are   *)
(* not parsed; the others are parsed in order, block by block. Each layout   *)
(* found may be edited, or have the record left out.                         *)
(* fil: [verb, skip, hdr: sets of record numbers; edits: field -> value]      *)
(* Result: [P, out: what is written, bad: streams whose records could no     *)
(* longer be followed, free: records about which nothing is said]            *)
(***************************************************************************)
Edited(fields, vals, edits) == \E i \in 1..Len(fields) : fields[i] \in DOMAIN edits /\ (IF fields[i] \in DOMAIN edits THEN edits[fields[i]] # vals[i] ELSE FALSE)
CopyHow == [stop |-> 0, eat |-> TRUE, plain |-> <<>>, unsup |-> TRUE, copy |-> TRUE, decode |-> FALSE]
CopyRecord(acc, recs, i, formats, fil) ==
  LET rec == recs[i]
      key == <<rec.s, rec.type, rec.ver>>
      Out(flags) == [n |-> i, type |-> rec.type, ver |-> rec.ver + (IF i \in fil.hdr THEN 10 ELSE 0), s |-> rec.s, flags |-> flags]
      same == [k \in 1..Len(rec.lens) |-> 0]
  IN IF i \in fil.verb \/ Total(rec) = 0 THEN [acc EXCEPT !.out = Append(@, Out(same))]
     ELSE IF rec.s \in acc.bad THEN [acc EXCEPT !.free = @ \cup {i}]
     ELSE LET x == TLCEval(Read(acc.P, rec, formats, CopyHow))
              reached == {x.calls[j].i + 1 : j \in 1..Len(x.calls)}
          IN IF x.odd THEN [acc EXCEPT !.bad = @ \cup {rec.s}, !.free = @ \cup {i}]
             ELSE IF x.left # 0 THEN [acc EXCEPT !.P = x.P, !.free = @ \cup {i}]
             ELSE IF i \in fil.skip /\ reached # {} THEN [acc EXCEPT !.P = x.P]
             ELSE [acc EXCEPT !.P = x.P, !.out = Append(@, Out([k \in 1..Len(rec.lens) |->
                    IF k \in reached THEN (IF Edited(formats[key].fields[k], rec.vals[k], fil.edits) THEN 1 ELSE 0) ELSE 0]))]
FilterCopy(recs, formats, fil) ==
  FoldLeft(LAMBDA acc, i : TLCEval(CopyRecord(acc, recs, i, formats, fil)), [P |-> NewPlayer, out |-> <<>>, bad |-> {}, free |-> {}], [i \in 1..Len(recs) |-> i])
=============================================================================
