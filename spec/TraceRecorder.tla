--------------------------- MODULE TraceRecorder ---------------------------
(* Checks executions of the real library (events written by the driver's   *)
(* mode "rec") against Recorder.                                           *)
EXTENDS Recorder, TraceBase

VARIABLES l, m, prev,  \* the last crash image checked
          bt,    \* the batches of the file being written, or of the last file: sets of records
          img,   \* positions of the records in the file crash images are made of: [id, type, start, end]
          fail   \* while storage faults are injected: [on, reported]
vars == <<l, m, bt, fail, img, prev>>

Rc(got, exp) == IF exp = "ok" THEN got = 0 ELSE got # 0

\* n data records by each of nt threads, thread t on stream t + 1, at times 0..n-1
AddStress(mm, nt, n, id) ==
  [mm EXCEPT !.ord = @ + nt * n,
             !.pend = @ \cup {[ts |-> k, ty |-> TData, id |-> id + t * n + k, ord |-> mm.ord + t * n + k + 1, s |-> t + 1]
                              : t \in 0..(nt - 1), k \in 0..(n - 1)}]

\* ----- next model state
Step(ev) ==
  CASE ev.ev = "begin" -> InitState
    [] ev.ev = "stream" -> NewStream(m, ev.s, ev.t, ev.inst, ev.fl)
    [] ev.ev = "attach" -> Attach(m, ev.s)
    [] ev.ev = "active" -> [m EXCEPT !.streams[ev.s].act = ev.b]
    [] ev.ev = "auto" -> [m EXCEPT !.streams[ev.s].cfg = @ \o Opt(ev, "c", <<>>), !.streams[ev.s].sta = @ \o Opt(ev, "st", <<>>)]
    [] ev.ev = "create" -> AddRec(m, ev.s, ev.t, ev.ts, ev.id)
    [] ev.ev = "many" -> AddMany(m, ev.s, Opt(ev, "t", TData), ev.ts, ev.dt, ev.id, ev.n)
    [] ev.ev = "cbegin" -> CreateBegin(m, ev.s, ev.t, ev.ts, ev.id)
    [] ev.ev = "cend" -> CreateEnd(m, ev.id)
    [] ev.ev = "purge" -> Purge(m, ev.ts)
    [] ev.ev = "spurge" -> [m EXCEPT !.pend = PurgeSet(@, ev.s, ev.ts)]
    [] ev.ev = "autop" -> [m EXCEPT !.autop = Opt(ev, "on", TRUE)]
    [] ev.ev = "autopset" -> IF m.mode = "idle" /\ m.autop THEN Purge(m, ev.ts) ELSE m
    [] ev.ev = "stress" -> AddStress(m, ev.nt, ev.n, ev.id)
    [] ev.ev = "open" -> IF ev.rc = 0 \/ ~m.fault THEN Open(m) ELSE IF m.mode = "idle" THEN DropTags(m) ELSE m
    [] ev.ev = "write" -> Write(m, ev.ts)
    [] ev.ev = "close" -> Close(m)
    [] ev.ev = "wait" -> IF m.mode = "idle" THEN m
                         ELSE LET w == Wait(m) IN
                              [w EXCEPT !.files[Len(w.files)].err = (ev.rc # 0)]
    [] ev.ev = "sync" -> LET w == Sync(m) IN
                         IF m.mode = "idle" /\ ev.rc # 0 THEN [w EXCEPT !.files[Len(w.files)].err = TRUE] ELSE w
    [] ev.ev = "badopen" -> IF m.mode = "idle" THEN DropTags(m) ELSE m
    [] ev.ev = "badsync" -> IF m.mode = "idle" THEN [Collect([DropTags(m) EXCEPT !.cur = NewFile(m)], MaxTs) EXCEPT !.cur = NoFile] ELSE m
    [] ev.ev = "autow" -> Write([m EXCEPT !.auto = IF m.mode = "writing" THEN ev.ts ELSE @], ev.ts)
    [] ev.ev = "autowait" -> IF m.mode = "writing" /\ m.auto # MinTs THEN Write(m, m.auto) ELSE m
    [] ev.ev = "ftag" -> SetFileTag(m, ev.key, ev.val)
    [] ev.ev = "stag" -> SetStreamTag(m, ev.s, ev.key, ev.val)
    [] ev.ev = "fault" -> [m EXCEPT !.fault = TRUE]
    [] ev.ev = "nofault" -> [m EXCEPT !.fault = FALSE]
    [] OTHER -> m

\* ----- what the event must show
ExpectedStreams(f) ==
  LET fs == FileStreams(m, f)
      ids == SortSeq(SetToSeq(DOMAIN fs), LAMBDA a, b : StreamLess(m, a, b))
  IN [k \in 1..Len(ids) |-> <<ids[k], fs[ids[k]].fl, Pairs(fs[ids[k]].tags),
                              Cardinality({r \in Visible(f) : r.s = ids[k]})>>]
GotStreams(ev) == [k \in 1..Len(ev.streams) |->
  <<ev.streams[k][1], ev.streams[k][2], {ev.streams[k][3][j] : j \in 1..Len(ev.streams[k][3])}, ev.streams[k][5]>>]

FileOf(ev) == LET n == Opt(ev, "f", Len(m.files)) IN m.files[n]

ReadOk(ev) ==
  \E f \in {FileOf(ev)} : \E exp \in {FileRecs(m, f)} : \E streams \in {TLCEval(ExpectedStreams(f))} :
     /\ Same("read.rc", ev.rc, 0)
     /\ Same("read.recs", ev.recs, TLCEval([k \in 1..Len(exp) |-> <<exp[k].s, exp[k].ty, exp[k].ts, exp[k].id, 1>>]))
     /\ Same("read.all", ev.all, TLCEval([k \in 1..Len(exp) |-> exp[k].id]))
     /\ Same("read.consistent", ev.cons, TRUE)
     /\ Same("read.hasIndex", ev.hasIndex, TRUE)
     /\ Same("read.ftags", {ev.ftags[k] : k \in 1..Len(ev.ftags)}, Pairs(f.ftags))
     /\ Same("read.streams", GotStreams(ev), streams)
     /\ Same("read.perStream", ev.perStream,
             [k \in 1..Len(streams) |->
                <<streams[k][1],
                  LET q == TLCEval(SelectSeq(exp, LAMBDA r : r.s = streams[k][1]))
                  IN TLCEval([j \in 1..Len(q) |-> q[j].ts])>>])

\* after a failed recording: what can be read, if anything, is a subset, intact, in order, nothing twice
ReadAfterFailure(ev) ==
  LET f == FileOf(ev)
      exp == FileRecs(m, f)
      tuples == {<<r.s, r.ty, r.ts, r.id, 1>> : r \in Visible(f)}
  IN ev.rc = 0 =>
       /\ Same("failed.subset", {ev.recs[k] : k \in 1..Len(ev.recs)} \ tuples, {})
       /\ Same("failed.unique", Cardinality({ev.recs[k] : k \in 1..Len(ev.recs)}), Len(ev.recs))
       /\ Same("failed.order", ev.recs, SelectSeq([k \in 1..Len(exp) |-> <<exp[k].s, exp[k].ty, exp[k].ts, exp[k].id, 1>>],
                                                  LAMBDA t : \E k \in 1..Len(ev.recs) : ev.recs[k] = t))
       /\ Same("failed.ftags", {ev.ftags[k] : k \in 1..Len(ev.ftags)}, Pairs(f.ftags))
       \* nothing written after something that is missing
       /\ LET got == {ev.recs[k][4] : k \in 1..Len(ev.recs)}
              missing == {r \in Visible(f) : r.id \notin got}
              batch(r) == CHOOSE k \in 1..Len(bt) : r \in bt[k]
              after == {q \in Visible(f) : /\ q.id \in got
                                            /\ \E r \in missing : batch(r) <= batch(q) /\ RecLess(m, r, q)}
          IN f = m.files[Len(m.files)] => Same("failed.afterFailure", {q.id : q \in after}, {})

\* physical layout of a chunked recording: spans = <<offset, size>> of each record, in file order
RECURSIVE Bases(_, _)
Bases(sizes, base) == IF sizes = <<>> THEN <<>> ELSE <<base>> \o Bases(Tail(sizes), base + Head(sizes))
LayoutOk(ev) ==
  \E b \in {Bases(ev.sizes, 0)} :
  LET n == Len(ev.sizes)
      inChunk(k, c) == ev.spans[k][1] >= b[c] /\ ev.spans[k][1] + ev.spans[k][2] <= b[c] + ev.sizes[c]
      count(c) == Cardinality({k \in 1..Len(ev.spans) : ev.spans[k][1] >= b[c] /\ ev.spans[k][1] < b[c] + ev.sizes[c]})
  IN /\ Same("layout.rc", ev.rc, 0)
     /\ Same("layout.numbered", ev.numbered, TRUE)
     /\ \A k \in 1..Len(ev.spans) : Same("layout.noSplitRecord", \E c \in 1..n : inChunk(k, c), TRUE)
     /\ ev.limit > 0 => \A c \in 1..n : Same("layout.chunkWithinLimit", <<c, ev.sizes[c] <= ev.limit \/ count(c) <= 1>>, <<c, TRUE>>)
     /\ ev.limit = 0 => Same("layout.chunkCount", n <= 2, TRUE)

\* the chunk listener: each chunk once, in any order, when it's complete, the last one said to be
\* events <<number in the name, index, last, size when notified, final size>>
ChunkEventsOk(ev) ==
  LET n == Len(ev.chunks) IN
  n > 0 =>
     /\ Same("chunks.indexes", {ev.chunks[k][2] : k \in 1..n}, 0..(n - 1))
     /\ Same("chunks.count", n, ev.nfiles)
     /\ \A k \in 1..n :
        /\ Same("chunks.name", ev.chunks[k][1], ev.chunks[k][2])
        /\ Same("chunks.lastFlag", ev.chunks[k][3], IF k = n THEN 1 ELSE 0)
        /\ Same("chunks.complete", ev.chunks[k][4], ev.chunks[k][5])

(* A crash image: what storage holds when recording stopped at some point. Opened (a), opened with   *)
(* repair (b), opened again (c), opened with repair again (d).                                         *)
ImgOk(ev) ==
  LET f == m.files[Len(m.files)]
      desc == ev.desc
      complete == {img[k][1] : k \in {j \in 1..Len(img) : img[j][4] <= ev.dlen}}
      \* something which isn't a record follows: the last record may be considered suspicious
      last == IF ev.n > 0 /\ ev.tail > 0 THEN {img[ev.n][1]} ELSE {}
      full == FileRecs(m, f)
      show(ids) == LET q == SelectSeq(full, LAMBDA r : r.id \in ids)
                   IN TLCEval([k \in 1..Len(q) |-> <<q[k].s, q[k].ty, q[k].ts, q[k].id, 1>>])
      \* (when the description is incomplete, nothing or everything may be found)
      allowed == {show(complete), show(complete \ last)} \cup IF desc THEN {} ELSE {<<>>}
  IN /\ Same("image.opens", desc => ev.arc = 0, TRUE)
     /\ ev.arc = 0 =>
          /\ IF ev.arecs \in allowed THEN TRUE ELSE Same("image.recs", ev.arecs, show(complete))
          /\ desc => Same("image.ftags", {ev.ftags[k] : k \in 1..Len(ev.ftags)}, Pairs(f.ftags))
          /\ desc => Same("image.streams",
                {<<ev.streams[k][1], ev.streams[k][2], {ev.streams[k][3][j] : j \in 1..Len(ev.streams[k][3])}>> : k \in 1..Len(ev.streams)},
                LET fs == FileStreams(m, f) IN {<<s, fs[s].fl, Pairs(fs[s].tags)>> : s \in DOMAIN fs})
     /\ Same("image.untouched", ev.untouched, TRUE)
     /\ ev.ahas = 1 => Same("image.repairNothing", ev.rewritten, FALSE)
     /\ Same("image.repair.rc", ev.brc = 0, ev.arc = 0)
     /\ ev.arc = 0 =>
          /\ Same("image.repair.recs", ev.brecs, ev.arecs)
          /\ Same("image.repaired.rc", ev.crc, 0)
          /\ Same("image.repaired.recs", ev.crecs, ev.arecs)
          /\ desc /\ ev.arecs # <<>> => Same("image.repaired.hasIndex", ev.chas, 1)
          /\ Same("image.again.recs", ev.drecs, ev.arecs)
     /\ Same("image.again.untouched", ev.stable, TRUE)

(* The repair of the previous image stopped half way: the records are still all there (the last one, in *)
(* the file, might be considered suspicious again), and a repair succeeds.                            *)
Img2Ok(ev) ==
  LET ids == {prev[k][4] : k \in 1..Len(prev)}
      lastId == IF ids = {} THEN 0 ELSE img[CHOOSE k \in 1..Len(img) : img[k][1] \in ids /\ \A j \in (k+1)..Len(img) : img[j][1] \notin ids][1]
      allowed == {prev, SelectSeq(prev, LAMBDA r : r[4] # lastId)}
  IN /\ Same("repair.interrupted.opens", ev.arc, 0)
     /\ IF ev.arecs \in allowed THEN TRUE ELSE Same("repair.interrupted.recs", ev.arecs, prev)
     /\ Same("repair.interrupted.repairs", <<ev.brc, ev.crc, ev.brecs, ev.crecs>>, <<0, 0, ev.arecs, ev.arecs>>)
     /\ ev.arecs # <<>> => Same("repair.interrupted.hasIndex", ev.chas, 1)

(* One record's stored header was altered: reading it fails, except that data which still            *)
(* decompresses entirely (only redundant bytes at the end are missing) may be delivered. All other     *)
(* records are read as before.                                                                         *)
DmgOk(ev) ==
  LET full == FileRecs(m, m.files[Len(m.files)])
      rest == SelectSeq(full, LAMBDA r : r.id # ev.id)
  IN /\ Same("damage.opens", ev.rc, 0)
     /\ Same("damage.others", ev.recs, TLCEval([k \in 1..Len(rest) |-> <<rest[k].s, rest[k].ty, rest[k].ts, rest[k].id, 1>>]))
     /\ Same("damage.delivered", ev.delivered => ev.good, TRUE)
     /\ IF ev.field = "cut" THEN Same("damage.reported", ev.err # 0 \/ ev.good, TRUE)
        ELSE Same("damage.reported", <<ev.field, ev.err # 0, ev.delivered>>, <<ev.field, TRUE, FALSE>>)

Expect(ev) ==
  CASE ev.ev = "open" -> ~m.fault => Same("open.rc", ev.rc = 0, m.mode = "idle")
    [] ev.ev = "write" -> ~m.fault => Same("write.rc", ev.rc = 0, m.mode = "writing")
    [] ev.ev = "autow" -> ~m.fault => Same("autow.rc", ev.rc = 0, m.mode = "writing")
    [] ev.ev = "autowait" -> Same("autowait.ran", ev.ran, TRUE)
    [] ev.ev = "autopset" -> Same("autopurge.ran", ev.ran, m.mode = "idle" /\ m.autop)
    [] ev.ev = "autop" -> Same("autopurge.rc", ev.rc, 0)
    [] ev.ev = "close" -> ~m.fault => Same("close.rc", ev.rc = 0, m.mode # "idle")
    [] ev.ev = "wait" -> /\ ~m.fault => Same("wait.rc", ev.rc = 0, m.mode # "idle")
                         /\ (ev.rc = 0 /\ m.mode # "idle") =>
                              /\ Same("chunks.none", ev.chunks = <<>>, ~ev.split)
                              /\ ChunkEventsOk(ev)
    [] ev.ev = "sync" -> ~m.fault => Same("sync.rc", ev.rc = 0, m.mode = "idle")
    [] ev.ev = "badopen" -> Same("badopen.rc", ev.rc # 0, TRUE)
    [] ev.ev = "badsync" -> Same("badsync.rc", ev.rc # 0, TRUE)
    [] ev.ev = "isw" -> m.mode # "closing" => Same("isWriting", ev.w, m.mode = "writing")
    [] ev.ev = "spurge" -> Same("purge.count", ev.n, Cardinality(m.pend) - Cardinality(PurgeSet(m.pend, ev.s, ev.ts)))
    [] ev.ev = "read" -> IF Opt(ev, "f", Len(m.files)) = 0 THEN Same("read.none", ev.rc # 0, TRUE)
                         ELSE IF FileOf(ev).err THEN ReadAfterFailure(ev) ELSE ReadOk(ev)
    [] ev.ev = "layout" -> LayoutOk(ev)
    [] ev.ev = "spans" -> Same("spans.all", {ev.spans[k][1] : k \in {j \in 1..Len(ev.spans) : ev.spans[j][2] # TTags}},
                                {r.id : r \in Visible(m.files[Len(m.files)])})
    [] ev.ev = "img" -> ImgOk(ev)
 [] ev.ev = "img2" -> Img2Ok(ev)
    [] ev.ev = "dmg" -> DmgOk(ev)
    [] ev.ev = "hdmg" -> Same("header.refused", <<ev.field, ev.rc # 0, ev.empty, ev.rc2 # 0, ev.same>>, <<ev.field, TRUE, TRUE, TRUE, TRUE>>)
    [] ev.ev = "nofault" -> Same("failure.spurious", fail.reported => ev.hit, TRUE)
    [] OTHER -> TRUE

\* records collected by this step make a batch
Collected(mm) == LET a == mm.cur.recs IN
  IF Len(mm.files) > Len(m.files) THEN mm.files[Len(mm.files)].recs \ m.cur.recs ELSE a \ m.cur.recs
NextBatches(ev, mm) ==
  LET base == IF ev.ev = "begin" \/ (m.mode = "idle" /\ (mm.mode # "idle" \/ Len(mm.files) > Len(m.files))) THEN <<>> ELSE bt
      new == IF ev.ev = "begin" THEN {} ELSE Collected(mm)
  IN IF new = {} THEN base ELSE Append(base, new)
NextFail(ev) ==
  CASE ev.ev = "begin" -> [on |-> FALSE, reported |-> FALSE]
    [] ev.ev = "fault" -> [on |-> TRUE, reported |-> FALSE]
    [] ev.ev = "nofault" -> [fail EXCEPT !.on = FALSE]
    [] ev.ev \in {"open", "write", "close", "wait", "sync"} ->
         \* requests which are refused for another reason don't count
         [fail EXCEPT !.reported = @ \/ (ev.rc # 0 /\ (m.mode = "idle") = (ev.ev \in {"open", "sync"}))]
    [] OTHER -> fail

Init == l = 1 /\ m = InitState /\ bt = <<>> /\ img = <<>> /\ prev = <<>> /\ fail = [on |-> FALSE, reported |-> FALSE]
Next == /\ l <= Len(Trace)
        /\ Expect(Trace[l])
        /\ m' = Step(Trace[l])
        /\ bt' = NextBatches(Trace[l], m')
        /\ img' = IF Trace[l].ev = "spans" THEN Trace[l].spans ELSE IF Trace[l].ev = "begin" THEN <<>> ELSE img
        /\ prev' = IF Trace[l].ev = "img" THEN Trace[l].arecs ELSE prev
        /\ fail' = NextFail(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
