---------------------------- MODULE TraceFormat ----------------------------
(* Conformance of record formats: their text, the sizes they give, and the *)
(* calls a player receives when records are read from files.               *)
EXTENDS RecordFormat, TraceBase

VARIABLES l, formats, recs, player
vars == <<l, formats, recs, player>>

SameSeq(what, got, exp) == IF Len(got) # Len(exp) THEN Same(what \o ".count", Len(got), Len(exp)) ELSE \A i \in 1..Len(exp) : Same(what, got[i], exp[i])
Shows(blocks) == [i \in 1..Len(blocks) |-> Shown(blocks[i])]

\* bytes of a layout block
FieldSize(f, v) == IF f \in {F_CODEC, 21} THEN 8 + Len(v) ELSE IF f \in {F_BPP8, F_AF, F_SF, F_AS, F_CH, 18, 22} THEN 1 ELSE IF f = F_KTS THEN 8 ELSE 4
LayoutSize(fields, vals) == FoldLeft(LAMBDA acc, i : acc + FieldSize(fields[i], vals[i]), 0, [i \in 1..Len(fields) |-> i])

Key(ev) == <<ev.s, ev.type, ev.ver>>
Declared(ev) == [i \in 1..Len(ev.formats) |-> [type |-> ev.formats[i].type, ver |-> ev.formats[i].ver, blocks |-> Shows(ev.formats[i].blocks)]]
Classic(rec) == <<[k |-> "classic", i |-> 0, left |-> Total(rec), b |-> Shown([t |-> EMPTY, size |-> -1, img |-> NoImage, codec |-> <<>>, aud |-> NoAudio, name |-> <<>>]), ok |-> TRUE, vals |-> <<>>]>>
HasFormat(rec) == Key(rec) \in DOMAIN formats /\ (IF Key(rec) \in DOMAIN formats THEN Used(formats[Key(rec)].blocks) > 0 ELSE FALSE)
After(rec, ev) == IF HasFormat(rec) THEN Read(player, rec, formats, [stop |-> ev.stop, eat |-> ev.eat, plain |-> ev.plain, unsup |-> ev.unsup, copy |-> FALSE, decode |-> FALSE])
                  ELSE [P |-> player, calls |-> IF Total(rec) = 0 THEN <<>> ELSE Classic(rec), left |-> 0]

Expect(ev) ==
  CASE ev.ev = "text" ->
         /\ (ev.big \/ SameSeq("text.built", ev.got, Shows(ev.blocks)))
         /\ (ev.big \/ SameSeq("text.parsed", ev.parsed, IF ev.blocks = <<>> THEN <<Shown([t |-> EMPTY, size |-> -1, img |-> NoImage, codec |-> <<>>, aud |-> NoAudio, name |-> <<>>])>> ELSE Shows(ev.blocks)))
         /\ Same("text.same", ev.same, TRUE)
         /\ Same("text.str", ev.str, FormatText(ev.blocks))
         /\ Same("text.again", ev.again, ev.str)
         /\ Same("text.used", ev.used, Used(ev.blocks))
         /\ (ev.big \/ Same("text.rem", ev.rem, [k \in 1..(Len(ev.blocks) + 1) |-> SizeFrom(ev.blocks, k)]))
         /\ (ev.big \/ Same("text.sizes", ev.sizes, [k \in 1..Len(ev.blocks) |-> [i \in 1..Len(ev.lefts) |-> SizeOf(ev.blocks, k, ev.lefts[i])]]))
    [] ev.ev = "tag" -> Same("tag", [name |-> ev.name, lname |-> ev.lname, ok |-> ev.ok, t |-> ev.t, v |-> ev.v, bad |-> ev.bad],
                             [name |-> FormatTag(ev.type, ev.ver), lname |-> LayoutTag(ev.type, ev.ver, ev.blk + 1), ok |-> TRUE, t |-> ev.type, v |-> ev.ver, bad |-> <<>>])
    [] ev.ev = "stream" -> /\ Same("stream.ok", ev.okf, [i \in 1..Len(ev.formats) |-> \A k \in 1..Len(ev.formats[i].blocks) : ev.formats[i].blocks[k].t = LAYOUT => ev.formats[i].fields[k] # <<-1>>])
    [] ev.ev = "rec" -> Same("rec.lens", ev.lens,
           [k \in 1..Len(ev.lens) |-> IF Key(ev) \in DOMAIN formats THEN (IF formats[Key(ev)].blocks[k].t = LAYOUT /\ formats[Key(ev)].fields[k] # <<-1>> THEN LayoutSize(formats[Key(ev)].fields[k], ev.vals[k]) ELSE ev.lens[k]) ELSE ev.lens[k]])
    [] ev.ev = "open" -> /\ Same("open.rc", ev.rc, 0) /\ Same("open.n", ev.n, Len(recs))
                         /\ Same("open.formats", {ev.formats[i] : i \in 1..Len(ev.formats)},
                              {[s |-> k[1], type |-> k[2], ver |-> k[3], blocks |-> IF formats[k].blocks = <<>> THEN Shows(<<[t |-> EMPTY, size |-> -1, img |-> NoImage, codec |-> <<>>, aud |-> NoAudio, name |-> <<>>]>>) ELSE Shows(formats[k].blocks)] : k \in DOMAIN formats})
    [] ev.ev = "read" -> \A rec \in {recs[ev.n]} : \A x \in {After(rec, ev)} :
         /\ Same("read.rc", ev.rc, 0)
         /\ SameSeq("read.call", ev.calls, x.calls)
         /\ Same("read.left", ev.left, x.left)
    [] ev.ev = "decode" -> \E x \in {TLCEval(DecodeAll(recs, formats))} :
         IF x.odd THEN TRUE ELSE Same("decode", <<ev.ok, ev.decoded, ev.n>>, <<x.bad = 0, Len(recs) - x.bad, IF x.bad = 0 THEN x.images ELSE Len(recs)>>)
    [] ev.ev = "fcopy" -> /\ Same("fcopy.rc", ev.rc, 0)
         /\ \E x \in {TLCEval(FilterCopy(recs, formats, [verb |-> {ev.verb[i] : i \in 1..Len(ev.verb)}, skip |-> {ev.skip[i] : i \in 1..Len(ev.skip)},
                        hdr |-> {ev.hdr[i] : i \in 1..Len(ev.hdr)}, edits |-> [f \in {ev.edits[i][1] : i \in 1..Len(ev.edits)} |-> LET i == CHOOSE i \in 1..Len(ev.edits) : ev.edits[i][1] = f IN ev.edits[i][2]]]))} :
              /\ SameSeq("fcopy.record", SelectSeq(ev.got, LAMBDA g : g.n \notin x.free), x.out)
              /\ Same("fcopy.types", ev.types, TRUE)
    [] OTHER -> TRUE

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \E ev \in {Trace[l]} :
     /\ (IF Expect(ev) THEN TRUE ELSE FALSE)
     /\ CASE ev.ev = "begin" -> formats' = <<>> /\ recs' = <<>> /\ player' = NewPlayer
          [] ev.ev = "stream" -> /\ formats' = FoldLeft(LAMBDA acc, f : Put(acc, <<ev.s, f.type, f.ver>>, [blocks |-> f.blocks, fields |-> f.fields]), formats, ev.formats)
                                 /\ UNCHANGED <<recs, player>>
          [] ev.ev = "rec" -> recs' = Append(recs, ev) /\ UNCHANGED <<formats, player>>
          [] ev.ev = "open" -> player' = NewPlayer /\ UNCHANGED <<formats, recs>>
          [] ev.ev = "read" -> (\E x \in {After(recs[ev.n], ev)} : player' = x.P) /\ UNCHANGED <<formats, recs>>
          [] OTHER -> UNCHANGED <<formats, recs, player>>
Init == l = 1 /\ formats = <<>> /\ recs = <<>> /\ player = NewPlayer
Spec == Init /\ [][Next]_vars
=============================================================================
