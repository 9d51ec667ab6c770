----------------------------- MODULE TraceBulk -----------------------------
(* Recordings of very many records. The state of Recorder is abstracted to *)
(* intervals: record k is at time k, so that at any time the pending       *)
(* records are an interval, and so are the records of each file. Files are *)
(* observed as the runs of consecutive records they present.               *)
EXTENDS Naturals, Sequences, TLC, TraceBase

VARIABLES l,
          sz,      \* payload size of the records, when they are not compressed; or 0
          made,    \* records created so far
          writing,
          file     \* <<first, last>> record of the file being written or of the last one
vars == <<l, sz, made, writing, file>>

Runs(a, b) == IF b < a THEN <<>> ELSE <<<<a, b - a + 1>>>>

Step(ev) ==
  CASE ev.ev = "begin" -> /\ sz' = IF ev.preset = "none" THEN ev.sz ELSE 0
                          /\ made' = 0 /\ writing' = FALSE /\ file' = <<1, 0>>
    [] ev.ev = "add" -> made' = made + ev.n /\ UNCHANGED <<sz, writing, file>>
    [] ev.ev = "open" -> writing' = TRUE /\ file' = <<file[2] + 1, file[2]>> /\ UNCHANGED <<sz, made>>
    \* (records strictly before that time)
    [] ev.ev = "write" -> /\ LET u == IF ev.upto - 1 > made THEN made ELSE ev.upto - 1
                             IN file' = <<file[1], IF u > file[2] THEN u ELSE file[2]>>
                          /\ UNCHANGED <<sz, made, writing>>
    [] ev.ev = "wait" -> file' = <<file[1], made>> /\ writing' = FALSE /\ UNCHANGED <<sz, made>>
    [] ev.ev = "sync" -> file' = <<file[2] + 1, made>> /\ UNCHANGED <<sz, made, writing>>
    [] OTHER -> UNCHANGED <<sz, made, writing, file>>

\* storage holds the first ev.len bytes: the records which are complete
Complete(ev) == IF ev.len < ev.start THEN file[1] - 1
                ELSE LET k == file[1] - 1 + (ev.len - ev.start) \div (32 + sz) IN IF k > file[2] THEN file[2] ELSE k

Expect(ev) ==
  CASE ev.ev = "open" -> Same("bulk.open", ev.rc, 0)
    [] ev.ev = "write" -> Same("bulk.write", ev.rc, 0)
    [] ev.ev \in {"wait", "sync"} -> Same("bulk.close", ev.rc, 0)
    [] ev.ev = "read" -> /\ Same("bulk.read.rc", ev.rc, 0)
                         /\ Same("bulk.read.runs", ev.runs, Runs(file[1], file[2]))
                         /\ Same("bulk.read.hasIndex", ev.has, TRUE)
    [] ev.ev = "image" ->
         \E k \in {Complete(ev)} :
           /\ Same("bulk.image.runs", <<ev.arc, ev.aruns>>, <<0, Runs(file[1], k)>>)
           /\ Same("bulk.image.repair", <<ev.brc, ev.bruns>>, <<0, ev.aruns>>)
           /\ Same("bulk.image.repaired", <<ev.crc, ev.cruns>>, <<0, ev.aruns>>)
           /\ k >= file[1] => Same("bulk.image.hasIndex", ev.chas, TRUE)
    [] OTHER -> TRUE

Init == l = 1 /\ sz = 0 /\ made = 0 /\ writing = FALSE /\ file = <<1, 0>>
Next == /\ l <= Len(Trace)
        /\ Expect(Trace[l])
        /\ Step(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
