--------------------------- MODULE TraceExtract ---------------------------
(* Conformance of the extraction of audio, images and everything.          *)
EXTENDS Extract, TraceBase

VARIABLES l, file
vars == <<l, file>>

None == [streams |-> <<>>]
Earlier(F, i, j) == \* records in the order of a file
  LET a == F.recs[i]
      b == F.recs[j]
  IN a.ts < b.ts \/ (a.ts = b.ts /\ (a.s < b.s \/ (a.s = b.s /\ i < j)))
Order(F) == SortSeq([i \in 1..Len(F.recs) |-> i], LAMBDA i, j : Earlier(F, i, j))
Blocks(F, i) == LET r == F.recs[i] IN Cut(F.streams[r.s].formats[r.f], F.bytes[i], r.ts)
Of(F, s) == \* the blocks of a stream
  LET mine == SelectSeq(Order(F), LAMBDA i : F.recs[i].s = s) IN Flat([n \in 1..Len(mine) |-> Blocks(F, mine[n])])
Audio(q) == SelectSeq(q, LAMBDA x : x.k = "audio")
Pics(q) == SelectSeq(q, IsImage)
Range(q) == {q[i] : i \in 1..Len(q)}

\* the lines about each record, when everything is extracted; n: images of each stream so far
RECURSIVE About(_, _, _, _), Said(_, _, _)
Said(id, bs, n) ==
  IF bs = <<>> THEN <<>>
  ELSE LET x == Head(bs) IN
       IF IsImage(x) THEN <<<<"image", ImageName(id, n + 1, x, TRUE)>>>> \o Said(id, Tail(bs), n + 1)
       ELSE IF x.k = "custom" THEN <<<<"custom", ToString(x.v[1])>>>> \o Said(id, Tail(bs), n)
       ELSE Said(id, Tail(bs), n)
About(F, todo, sel, n) ==
  IF todo = <<>> THEN <<>>
  ELSE LET r == F.recs[Head(todo)]
           bs == Blocks(F, Head(todo))
       IN IF r.s \notin sel THEN About(F, Tail(todo), sel, n)
          ELSE <<[s |-> F.names[r.s], t |-> "Data", ts |-> r.ts], [c |-> Said(F.names[r.s], bs, n[r.s])]>>
               \o About(F, Tail(todo), sel, [n EXCEPT ![r.s] = @ + Len(Pics(bs))])

HasAudio(F, s) == \E r \in Range(F.recs) : r.s = s /\ \E f \in 1..Len(F.streams[s].formats) : \E b \in 1..Len(F.streams[s].formats[f]) : F.streams[s].formats[f][b].k = "audio"
RECURSIVE Count(_)
Count(q) == IF q = <<>> THEN 0 ELSE Head(q).v[5] + Count(Tail(q))
Track(F, sel, ev) ==
  LET A == {s \in sel : HasAudio(F, s)} IN
  /\ Same("extract.saved", ev.json.saved, TRUE)
  /\ IF Cardinality(A) # 1
     THEN Same("extract.track", <<ev.json.status, ev.got>>, <<IF A = {} THEN "No audio track found" ELSE "Multiple audio track", <<>>>>)
     ELSE LET s == CHOOSE s \in A : TRUE
              q == TLCEval(Audio(Of(F, s)))
              R == TLCEval(Runs(q, <<>>))
          IN IF Len(R) > 1 THEN Same("extract.changed", ev.json.status = "success", FALSE)
             ELSE IF R = <<>> THEN Same("extract.empty", <<ev.json.status, ev.got>>, <<"success", <<>>>>)
             ELSE Same("extract.track", <<ev.json, ev.got>>,
                       <<[status |-> "success", saved |-> TRUE, first |-> q[1].ts, last |-> q[Len(q)].ts, samples |-> Count(q), stream |-> F.names[s]], <<Wav("track.wav", R[1])>>>>)

Files(F, s, how) ==
  LET q == TLCEval(Of(F, s)) IN
  CASE how = "audio" -> Wavs(F.names[s], Audio(q))
    [] how = "raw" -> Images(F.names[s], Pics(q), FALSE)
    [] how = "png" -> Images(F.names[s], Pics(q), TRUE)
    [] OTHER -> Wavs(F.names[s], Audio(q)) \cup Images(F.names[s], Pics(q), TRUE)

\* one at a time, for a readable explanation
Given(got, want) ==
  /\ Same("extract.names", {got[i].name : i \in 1..Len(got)}, {x.name : x \in want})
  /\ Same("extract.count", Len(got), Cardinality(want))
  /\ \A x \in want : \A i \in 1..Len(got) : IF got[i].name = x.name THEN Same("extract.file", got[i], x) ELSE TRUE

Expect(F, ev) ==
  LET sel == Range(ev.sel) IN
  /\ Same("extract.rc", ev.rc, 0)
  /\ IF ev.how = "track" THEN Track(F, sel, ev)
     ELSE /\ Given(ev.got, UNION {Files(F, s, ev.how) : s \in sel})
          /\ IF ev.how = "all" THEN Same("extract.about", ev.meta, About(F, Order(F), sel, [s \in 1..Len(F.streams) |-> 0])) ELSE TRUE

Init == l = 1 /\ file = None
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l] IN
           CASE ev.ev = "make" -> Same("extract.made", ev.rc, 0) /\ file' = ev
             [] ev.ev = "extract" -> Expect(file, ev) /\ file' = file
             [] OTHER -> file' = None
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
