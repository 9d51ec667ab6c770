------------------------------ MODULE Recorder ------------------------------
(***************************************************************************)
(* The observable behaviour of live recording with RecordFileWriter,       *)
(* Recordable and RecordManager: a state and one operator per request,     *)
(* each giving the next state.  MCRecorder explores it, TraceRecorder      *)
(* checks recorded executions of the real library against it.              *)
(*                                                                         *)
(* A record is [ts, ty, id, ord, s]: time, type (1 state, 2 configuration, *)
(* 3 data, 4 tags), identity of its content, creation order, stream.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

TState == 1
TConf == 2
TData == 3
TTags == 4
MinTs == -1000000
MaxTs == 1000000

EmptyFn == [x \in {} |-> 0]

\* a map with key k set to v
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

NoFile == [recs |-> {}, ftags |-> EmptyFn, streams |-> EmptyFn, err |-> FALSE, ok |-> FALSE]

InitState ==
  [ streams |-> EmptyFn,     \* sid -> [t, inst, fl, act, att, tags, cfg, sta]
    pend    |-> {},          \* records created, not written, not purged
    blocked |-> {},          \* records being created: order reserved, not yet in the buffer
    ord     |-> 0,
    late    |-> EmptyFn,     \* what TAGS records contain, by their order
    ftags   |-> EmptyFn,
    mode    |-> "idle",      \* idle | writing | closing (close requested) 
    cur     |-> NoFile,      \* the file being written
    files   |-> <<>>,        \* completed files
    auto    |-> MinTs,       \* automatic writing limit while writing (MinTs: off)
    autop   |-> FALSE,       \* periodic purging is on (it only runs while no file is written)
    pool    |-> 0,
    fault   |-> FALSE ]      \* a storage fault is armed

StreamLess(m, a, b) ==
  LET x == m.streams[a] y == m.streams[b]
  IN x.t < y.t \/ (x.t = y.t /\ x.inst < y.inst)

RecLess(m, a, b) ==
  \/ a.ts < b.ts
  \/ a.ts = b.ts /\ a.s # b.s /\ StreamLess(m, a.s, b.s)
  \/ a.ts = b.ts /\ a.s = b.s /\ a.ord < b.ord

\* (TLC lists a set of tuples in lexicographic order, which makes for a quick way to sort)
Sorted(m, S) ==
  LET quick(q) == TLCEval([k \in 1..Len(q) |-> q[k][5]])
      ok(z) == \A k \in 1..(Len(z) - 1) : RecLess(m, z[k], z[k + 1])
      z0 == CHOOSE z \in {quick(q) : q \in {SetToSeq({<<r.ts, m.streams[r.s].t, m.streams[r.s].inst, r.ord, r>> : r \in S})}} : TRUE
  IN CHOOSE x \in {IF ok(z) THEN z ELSE SortSeq(SetToSeq(S), LAMBDA a, b : RecLess(m, a, b)) : z \in {z0}} : TRUE

Attached(m) == {s \in DOMAIN m.streams : m.streams[s].att}

---------------------------------------------------------------------------
(* Purging: of the records of one stream older than T, keep all tags, the  *)
(* latest configuration and the latest state.                              *)
Latest(S, ty) ==
  LET C == {r \in S : r.ty = ty}
  IN {r \in C : \A q \in C : q.ts < r.ts \/ (q.ts = r.ts /\ q.ord <= r.ord)}

PurgeSet(P, s, T) ==
  LET old == {r \in P : r.s = s /\ r.ts < T}
  IN (P \ old) \cup {r \in old : r.ty = TTags} \cup Latest(old, TConf) \cup Latest(old, TState)

RECURSIVE PurgeAll(_, _, _)
PurgeAll(P, SS, T) ==
  IF SS = {} THEN P
  ELSE LET s == CHOOSE x \in SS : TRUE IN PurgeAll(PurgeSet(P, s, T), SS \ {s}, T)

(* Collecting for writing: active streams give their records older than T, *)
(* paused streams are purged instead.                                      *)
Taken(m, T) == {r \in m.pend : r.s \in Attached(m) /\ m.streams[r.s].act /\ r.ts < T}
Paused(m) == {s \in Attached(m) : ~m.streams[s].act}
Collect(m, T) ==
  [m EXCEPT !.pend = PurgeAll(@ \ Taken(m, T), Paused(m), T),
            !.cur.recs = @ \cup Taken(m, T)]

---------------------------------------------------------------------------
NewStream(m, s, t, inst, fl) ==
  [m EXCEPT !.streams = Put(@, s, [t |-> t, inst |-> inst, fl |-> fl, act |-> TRUE, att |-> FALSE,
                                   tags |-> EmptyFn, cfg |-> <<>>, sta |-> <<>>])]

AddRec(m, s, ty, ts, id) ==
  [m EXCEPT !.ord = @ + 1,
            !.pend = @ \cup {[ts |-> ts, ty |-> ty, id |-> id, ord |-> m.ord + 1, s |-> s]}]

RECURSIVE AddMany(_, _, _, _, _, _, _)
AddMany(m, s, ty, ts, dt, id, n) ==
  [m EXCEPT !.ord = @ + n,
            !.pend = @ \cup {[ts |-> ts + (k - 1) * dt, ty |-> ty, id |-> id + k - 1, ord |-> m.ord + k, s |-> s] : k \in 1..n}]

\* the configuration and state records a stream creates when asked to (scripted)
AutoCreate(m, s) ==
  LET st == m.streams[s]
      m1 == IF st.cfg = <<>> THEN m
            ELSE [AddRec(m, s, TConf, st.cfg[1][1], st.cfg[1][2]) EXCEPT !.streams[s].cfg = Tail(@)]
  IN IF st.sta = <<>> THEN m1
     ELSE [AddRec(m1, s, TState, st.sta[1][1], st.sta[1][2]) EXCEPT !.streams[s].sta = Tail(@)]

RECURSIVE AutoCreateAll(_, _)
AutoCreateAll(m, SS) ==
  IF SS = {} THEN m
  ELSE LET s == CHOOSE x \in SS : TRUE IN AutoCreateAll(AutoCreate(m, s), SS \ {s})

StreamInfo(st) == [t |-> st.t, inst |-> st.inst, fl |-> st.fl, tags |-> st.tags]

\* Attaching while a file is being written adds the stream to that file, with tags, configuration, state
Attach(m, s) ==
  LET again == m.streams[s].att
      m1 == [m EXCEPT !.streams[s].att = TRUE]
  IN IF m.mode = "idle" THEN m1
     ELSE LET m2 == [m1 EXCEPT !.ord = @ + 1,
                               !.late = Put(@, m.ord + 1, StreamInfo(m1.streams[s])),
                               !.pend = @ \cup {[ts |-> MinTs, ty |-> TTags, id |-> 0, ord |-> m.ord + 1, s |-> s]}]
          IN AutoCreate(m2, s)

CreateBegin(m, s, ty, ts, id) ==
  [m EXCEPT !.ord = @ + 1,
            !.blocked = @ \cup {[ts |-> ts, ty |-> ty, id |-> id, ord |-> m.ord + 1, s |-> s]}]
CreateEnd(m, id) ==
  LET r == CHOOSE x \in m.blocked : x.id = id
  IN [m EXCEPT !.blocked = @ \ {r}, !.pend = @ \cup {r}]

Purge(m, T) == [m EXCEPT !.pend = PurgeAll(@, Attached(m), T)]

NewFile(m) ==
  [recs |-> {}, ftags |-> m.ftags, err |-> FALSE, ok |-> TRUE,
   streams |-> [s \in Attached(m) |-> StreamInfo(m.streams[s])]]

\* tags which were added for a previous file are dropped: a file is created with the current tags
DropTags(m) == [m EXCEPT !.pend = {r \in @ : r.ty # TTags \/ r.s \notin Attached(m)}]

OpenRc(m) == IF m.mode = "idle" THEN "ok" ELSE "error"
Open(m) ==
  IF m.mode # "idle" THEN m
  ELSE AutoCreateAll([DropTags(m) EXCEPT !.mode = "writing", !.auto = MinTs, !.cur = NewFile(m)], Attached(m))

Write(m, T) == IF m.mode = "writing" THEN Collect(m, T) ELSE m

Close(m) == IF m.mode = "writing" THEN [Collect(m, MaxTs) EXCEPT !.mode = "closing"] ELSE m
Wait(m) ==
  IF m.mode = "idle" THEN m
  ELSE LET c == Close(m)
       IN [c EXCEPT !.mode = "idle", !.files = Append(@, c.cur), !.cur = NoFile, !.auto = MinTs]

\* everything in one call: create, collect everything, write, close
Sync(m) ==
  IF m.mode # "idle" THEN m
  ELSE LET c == Collect([DropTags(m) EXCEPT !.cur = NewFile(m)], MaxTs)
       IN [c EXCEPT !.files = Append(@, c.cur), !.cur = NoFile]

SetFileTag(m, k, v) == IF m.mode = "idle" THEN [m EXCEPT !.ftags = Put(@, k, v)] ELSE m
SetStreamTag(m, s, k, v) == [m EXCEPT !.streams[s].tags = Put(@, k, v)]

---------------------------------------------------------------------------
(* What reading a file shows *)
Visible(f) == {r \in f.recs : r.ty # TTags}
TagRecs(f) == {r \in f.recs : r.ty = TTags}
\* stream descriptions: those known at file creation, and those added since
FileStreams(m, f) ==
  LET late == {r.s : r \in TagRecs(f)} \ DOMAIN f.streams
      others == ({r.s : r \in Visible(f)} \ DOMAIN f.streams) \ late
      lateRec(s) == CHOOSE r \in TagRecs(f) : r.s = s /\ \A q \in TagRecs(f) : q.s = s => q.ord <= r.ord
  IN [s \in DOMAIN f.streams \cup late \cup others |->
        IF s \in DOMAIN f.streams THEN f.streams[s]
        ELSE IF s \in late THEN m.late[lateRec(s).ord]
        ELSE [t |-> m.streams[s].t, inst |-> m.streams[s].inst, fl |-> "", tags |-> EmptyFn]]

FileRecs(m, f) == Sorted(m, Visible(f))

\* a set of [key, value] pairs, as sequences of strings, from a map
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
=============================================================================
