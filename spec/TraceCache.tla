----------------------------- MODULE TraceCache -----------------------------
(* Conformance of reading remote files through their saved details.        *)
EXTENDS FileCache, TraceReader

VARIABLES ftags, cut, known,  \* of each file: its tags, is its index missing, can it be told from others
          entry,              \* of each file: the state of its saved details
          pend,               \* the state once the open file is closed, for <<file, state>>; <<>>: unchanged
          on                  \* is there a cache
cvars == <<l, files, cur, L, offs, players, ftags, cut, known, entry, pend, on>>
more == <<ftags, cut, known, entry, pend, on>>

EntryOf(f) == IF f \in DOMAIN entry THEN entry[f] ELSE "none"
Asked(ev) == "remote" \in DOMAIN ev
Shown(f, sorted) == IF sorted THEN ByKind(files[f]) ELSE Presented(files[f])
Triples(P) == [k \in 1..Len(P) |-> <<P[k].s, P[k].ty, P[k].ts>>]
Through(ev) == on /\ ev.remote /\ known[ev.f]

CStep(ev) ==
  CASE ev.ev = "begin" -> Step(ev) /\ ftags' = EmptyFn /\ cut' = EmptyFn /\ known' = EmptyFn /\ entry' = EmptyFn /\ pend' = <<>> /\ on' = FALSE
    [] ev.ev = "make" -> Step(ev) /\ ftags' = Put(ftags, ev.f, TagFn(Opt(ev, "ftags", <<>>))) /\ cut' = Put(cut, ev.f, ev.noindex) /\ known' = Put(known, ev.f, ev.known) /\ UNCHANGED <<entry, pend, on>>
    [] ev.ev = "cache" -> on' = ev.on /\ UNCHANGED <<files, cur, L, offs, players, ftags, cut, known, entry, pend>>
    [] ev.ev = "open" /\ Asked(ev) /\ ev.f \in DOMAIN files ->
         /\ IF ev.rc = 0 THEN cur' = ev.f /\ L' = TLCEval(Shown(ev.f, ev.sorted)) ELSE cur' = 0 /\ L' = <<>>
         /\ offs' = Append(ev.offs, ev.end) /\ UNCHANGED <<files, players>>
         /\ pend' = IF Through(ev) THEN <<ev.f, Saved(EntryOf(ev.f), ev.rc, ev.fault)>> ELSE <<>>
         /\ UNCHANGED <<ftags, cut, known, entry, on>>
    [] ev.ev = "close" -> Step(ev) /\ entry' = (IF pend = <<>> THEN entry ELSE Put(entry, pend[1], pend[2])) /\ pend' = <<>> /\ UNCHANGED <<ftags, cut, known, on>>
    [] ev.ev = "twin" -> entry' = (IF on /\ known[ev.f] THEN Put(entry, ev.f, "good") ELSE entry) /\ UNCHANGED <<files, cur, L, offs, players, ftags, cut, known, pend, on>>
    [] ev.ev = "spoil" -> /\ entry' = IF ev.how = "headers" \/ EntryOf(ev.f) = "none" THEN entry ELSE Put(entry, ev.f, IF ev.how = "remove" THEN "none" ELSE "bad")
                          /\ UNCHANGED <<files, cur, L, offs, players, ftags, cut, known, pend, on>>
    [] OTHER -> Step(ev) /\ UNCHANGED more

TagsOf(q) == {<<q[k][1], q[k][2]>> : k \in 1..Len(q)}
IsFn(tags, fn) == TagsOf(tags) = {<<k, fn[k]>> : k \in DOMAIN fn}
Content(ev, f) ==
  LET G == files[f] IN
  /\ Same("cache.streams", ev.streams, StreamSeq(G))
  /\ Same("cache.index", ev.ix, Triples(Presented(G)))
  /\ Same("cache.hasindex", ev.has, ~cut[f])
  /\ Same("cache.tagged", {ev.stags[k][1] : k \in 1..Len(ev.stags)}, DOMAIN G.streams)
  /\ \A k \in 1..Len(ev.stags) : LET x == ev.stags[k] IN Same("cache.tags", <<x[2], IsFn(x[3], G.streams[x[1]].tags)>>, <<G.streams[x[1]].fl, TRUE>>)
  /\ Same("cache.filetags", IsFn(ev.ftags, ftags[f]), TRUE)

CExpect(ev) ==
  CASE ev.ev = "open" /\ Asked(ev) /\ ev.f \in DOMAIN files ->
         LET may == MayOpen(IF Through(ev) THEN EntryOf(ev.f) ELSE "none", ev.fast, cut[ev.f]) IN
         /\ (IF ev.rc \in may THEN TRUE ELSE Same("cache.open", ev.rc, may))
         /\ IF ev.rc # 0 THEN TRUE
            ELSE /\ Same("cache.opened", <<ev.opened, ev.has, ev.streams>>, <<TRUE, ~cut[ev.f], StreamSeq(files[ev.f])>>)
                 /\ Same("cache.list", ev.ix, Triples(Shown(ev.f, ev.sorted)))
    [] ev.ev = "cached" ->
         LET e == EntryOf(ev.f) IN
         /\ CASE e = "good" -> Same("cache.saved", ev.rc, 0) [] e \in {"none", "bad"} -> Same("cache.refused", ev.rc, 1) [] OTHER -> TRUE
         /\ IF ev.rc = 0 THEN Content(ev, ev.f) ELSE TRUE
    [] ev.ev = "twin" -> /\ Same("twin", <<ev.rc, ev.rc2, ev.streams, ev.streams2>>, <<0, 0, StreamSeq(files[ev.f]), StreamSeq(files[ev.f])>>)
                         /\ \E P \in {TLCEval(Triples(Presented(files[ev.f])))} : Same("twin.index", <<ev.ix, ev.ix2>>, <<P, P>>)
    [] ev.ev = "details" -> /\ Same("details", <<ev.rc, ev.rd, ev.has, ev.streams, ev.offs, ev.tags>>, <<0, 0, ev.hasin, IF cur = 0 THEN <<>> ELSE StreamSeq(F), TRUE, TRUE>>)
                            /\ Same("details.index", ev.ix, Triples(L))
                            /\ Same("details.refused", ev.accepted, 0)
    [] ev.ev = "bulk" -> Same("details.bulk", <<ev.rc, ev.rd, ev.m, ev.same>>, <<0, 0, ev.n, TRUE>>)
    [] ev.ev = "q" /\ ev.q = "ftag" -> IF cur = 0 THEN TRUE ELSE Same("cache.ftag", ev.r, IF ev.key \notin DOMAIN ftags[cur] THEN "" ELSE ftags[cur][ev.key])
    [] ev.ev = "q" /\ ev.q = "chunks" /\ cur = 0 -> TRUE
    [] OTHER -> Expect(ev)

CInit == Init /\ ftags = EmptyFn /\ cut = EmptyFn /\ known = EmptyFn /\ entry = EmptyFn /\ pend = <<>> /\ on = FALSE
CNext == l <= Len(Trace) /\ CExpect(Trace[l]) /\ CStep(Trace[l]) /\ l' = l + 1
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
