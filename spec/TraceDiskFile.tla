--------------------------- MODULE TraceDiskFile ---------------------------
(* Conformance of DiskFile and of the asynchronous disk file with the      *)
(* contiguous file of DiskFile.tla.                                        *)
EXTENDS DiskFile, TraceBase

VARIABLES l, ch, idx, pos, mode, short, failed, gone, lsz
\* lsz: what the size of the last chunk was when it was last counted; gone: contents of forgotten chunks
vars == <<l, ch, idx, pos, mode, short, failed, gone, lsz>>

Cells(ev) == [i \in 1..ev.n |-> ((ev.v + i - 2) % ev.mod) + 1]

\* the state reported after an operation, against chunks c, position p and mode m
StOk(st, c, p, m, sh, s) ==
  LET n == Len(c) k == st.idx off == Off(c, k) IN
  /\ IF k >= 1 /\ k <= n THEN TRUE ELSE Same("file.chunk", k, n)
  /\ Same("file.pos", st.pos, p)
  /\ Same("file.chunkpos", st.cp, p - off)
  /\ IF st.cp >= 0 /\ (st.cp <= Len(c[k]) \/ (k = n /\ m # "ro")) THEN TRUE ELSE Same("file.inchunk", st.cp, Len(c[k]))
  /\ Same("file.readonly", st.ro, m = "ro")
  /\ Same("file.sizes", SubSeq(st.sz, 1, Len(st.sz) - 1), [i \in 1..(n - 1) |-> Len(c[i])])
  \* the size of a last chunk being extended may be what it was when last counted
  /\ LET z == st.sz[Len(st.sz)] IN IF z = Len(c[n]) \/ (m # "ro" /\ z >= s /\ z <= Len(c[n])) THEN TRUE ELSE Same("file.lastsize", z, Len(c[n]))
  /\ Same("file.total", st.tot, Off(c, n) + st.sz[Len(st.sz)])
  /\ LET r == IF st.cp = st.sz[k] /\ k < n THEN k + 1 ELSE k IN Same("file.range", st.range, <<Off(c, r), st.sz[r]>>)
  /\ IF sh THEN Same("file.eof", st.eof, TRUE) ELSE IF p < Total(c) \/ k < n THEN Same("file.eof", st.eof, FALSE) ELSE TRUE
  /\ Same("file.open", st.open, TRUE)

\* any position that is consistent: after an error, or when reopened
Loose(st, c, m, s) == StOk(st, c, st.pos, m, FALSE, s)

Begin(ev) ==
  /\ ch' = <<<<>>>> /\ idx' = 1 /\ pos' = 0 /\ mode' = "none" /\ short' = FALSE /\ failed' = FALSE /\ gone' = <<>> /\ lsz' = 0
\* nothing is left of an open that failed
Bad(ev) ==
  /\ IF ev.rc # 0 THEN TRUE ELSE Same("file.badopen", ev.rc, "an error")
  /\ Same("file.bad", <<ev.tot, ev.chunks>>, <<0, 0>>) /\ Same("file.bad open", ev.open, FALSE)
  /\ UNCHANGED <<ch, idx, pos, mode, short, failed, gone, lsz>>
Opened(ev) ==
  /\ ch' = ev.ch /\ idx' = 1 /\ pos' = 0 /\ mode' = ev.mode /\ short' = FALSE /\ failed' = FALSE /\ gone' = <<>> /\ lsz' = Len(ev.ch[Len(ev.ch)])
  /\ Same("file.begin", ev.rc, 0)
  /\ StOk(ev.st, ev.ch, 0, ev.mode, FALSE, lsz')

Keep == UNCHANGED <<mode, failed, gone>>

Moved(ev, p, c, sh) ==
  /\ StOk(ev.st, c, p, mode, sh, lsz')
  /\ pos' = p /\ idx' = ev.st.idx /\ ch' = c /\ short' = sh /\ Keep

Err(ev) ==  \* refused: content unchanged, position as reported
  /\ IF ev.rc # 0 THEN TRUE ELSE Same("file.refused " \o ev.op, ev.rc, "an error")
  /\ Loose(ev.st, ch, mode, lsz)
  /\ pos' = ev.st.pos /\ idx' = ev.st.idx /\ short' = FALSE /\ UNCHANGED <<ch, lsz>> /\ Keep

SetPos(ev, o) ==
  IF o >= 0 /\ (mode # "ro" \/ o <= Total(ch))
  THEN Same("file.rc setpos", ev.rc, 0) /\ lsz' = lsz /\ Moved(ev, o, ch, FALSE)
  ELSE Err(ev)

Read(ev) ==
  LET exp == TLCEval(ReadAt(Flat(ch), pos, ev.n)) IN
  /\ Same("file.read", ev.got, exp)
  /\ Same("file.rws", ev.rws, Len(exp))
  /\ IF ev.n = Len(exp) THEN Same("file.rc read", ev.rc, 0) ELSE IF ev.rc # 0 THEN TRUE ELSE Same("file.short read", ev.rc, "an error")
  /\ lsz' = lsz
  /\ Moved(ev, IF exp = <<>> /\ ev.n > 0 THEN ev.st.pos ELSE pos + Len(exp), ch, Len(exp) < ev.n)
  /\ Same("file.pos after read", ev.st.pos, pos + Len(exp))

WriteLike(ev, c) ==
  IF mode = "ro" THEN ev.rc # 0 /\ Err(ev)
  ELSE /\ Same("file.rc " \o ev.op, ev.rc, 0)
       /\ Same("file.rws", ev.rws, ev.n)
       /\ lsz' = lsz
       /\ IF ev.n = 0 THEN Moved(ev, pos, ch, FALSE) ELSE Moved(ev, pos + ev.n, c, FALSE)

Step1(ev) ==
  CASE ev.op = "setpos" -> SetPos(ev, ev.o)
    [] ev.op = "skip" -> SetPos(ev, pos + ev.n)
    [] ev.op = "read" -> Read(ev)
    [] ev.op = "overwrite" -> WriteLike(ev, IF ev.n = 0 \/ mode = "ro" THEN ch ELSE TLCEval(Overwrite(ch, pos, Cells(ev))))
    [] ev.op = "write" -> WriteLike(ev, IF ev.n = 0 \/ mode = "ro" THEN ch ELSE TLCEval(WriteIn(ch, idx, pos - Off(ch, idx), Cells(ev))))
    [] ev.op = "truncate" ->
         IF mode = "ro" THEN Err(ev)
         ELSE LET c == TLCEval(Truncate(ch, idx, pos - Off(ch, idx))) IN
              /\ Same("file.rc truncate", ev.rc, 0)
              /\ lsz' = IF idx = Len(ch) THEN Len(c[idx]) ELSE lsz
              /\ Same("file.stay", ev.st.idx, idx)
              /\ Moved(ev, pos, c, FALSE)
    [] ev.op = "addchunk" /\ (mode = "ro" \/ idx # Len(ch)) -> Err(ev)
    [] ev.op = "addchunk" ->
         /\ Same("file.rc addchunk", ev.rc, 0)
         /\ lsz' = 0
         /\ IF mode # "ro" /\ pos = Total(ch) THEN TRUE ELSE Same("script.addchunk", pos, Total(ch))
         /\ Same("file.newchunk", ev.st.idx, Len(ch) + 1)
         /\ Moved(ev, pos, Append(ch, <<>>), FALSE)
    [] ev.op = "reopen" ->
         /\ Same("file.rc reopen", ev.rc, 0)
         /\ StOk(ev.st, ch, ev.st.pos, "rw", FALSE, lsz)
         /\ mode' = "rw" /\ pos' = ev.st.pos /\ idx' = ev.st.idx /\ short' = FALSE /\ UNCHANGED <<ch, lsz, failed, gone>>
    [] ev.op = "forget" ->
         LET k == Kept(ch, idx, ev.n) c == SubSeq(ch, 1, k) IN
         /\ lsz' = IF k < Len(ch) THEN Len(c[k]) ELSE lsz
         /\ StOk(ev.st, c, pos, mode, FALSE, lsz')
         /\ ch' = c /\ gone' = SubSeq(ch, k + 1, Len(ch)) \o gone
         /\ short' = FALSE /\ UNCHANGED <<idx, pos, mode, failed>>
    [] OTHER -> FALSE

\* a storage operation failed: from the first error reported on, only the verdict of close counts
Faulted(ev) ==
  /\ failed' = TRUE
  /\ UNCHANGED <<ch, idx, pos, mode, short, gone, lsz>>

Closed(ev) ==
  /\ mode' = "closed"
  /\ IF failed \/ (ev.fired > 0 /\ ev.rc # 0) THEN TRUE
     ELSE /\ Same("file.rc close", ev.rc, 0)
          /\ Same("file.content", ev.ch, ch \o gone)
          /\ Same("file.closed", ev.open, FALSE)
       /\ Same("file.closed size", <<ev.tot, ev.chunks>>, <<0, 0>>)
  /\ UNCHANGED <<ch, idx, pos, short, failed, gone, lsz>>

Step(ev) ==
  CASE ev.ev = "begin" -> Begin(ev)
    [] ev.ev = "bad" -> Bad(ev)
    [] ev.ev = "opened" -> Opened(ev)
    [] ev.ev = "op" -> IF failed \/ (ev.fired > 0 /\ ev.rc # 0) THEN Faulted(ev) ELSE Step1(ev)
    [] ev.ev = "closed" -> Closed(ev)
    [] OTHER -> FALSE

Init == l = 1 /\ ch = <<<<>>>> /\ idx = 1 /\ pos = 0 /\ mode = "none" /\ short = FALSE /\ failed = FALSE /\ gone = <<>> /\ lsz = 0
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
