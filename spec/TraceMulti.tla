----------------------------- MODULE TraceMulti -----------------------------
(* Checks recorded sessions of MultiRecordFileReader against MultiFile;    *)
(* the files opened together are file 1000, read as TraceReader has it.    *)
EXTENDS MultiFile, TraceReader

VARIABLES ftags,   \* number of a file -> its tags
          keys,    \* tags which have to agree
          set,     \* the files open, in order
          ends     \* where the records of each end
mvars == <<l, files, cur, L, offs, players, ftags, keys, set, ends>>

DefaultKeys == <<"capture_time_epoch", "session_id">>
Whole == 1000
Tags(fs) == [i \in 1..Len(fs) |-> ftags[fs[i]]]
FilesOf(fs) == [i \in 1..Len(fs) |-> files[fs[i]]]
Valid(fs) == fs # <<>> /\ \A i \in 1..Len(fs) : fs[i] \in DOMAIN files
Keys(ev) == IF "related" \in DOMAIN ev THEN ev.related ELSE IF Opt(ev, "fresh", FALSE) THEN DefaultKeys ELSE keys
Opens(ev) == ~ev.was /\ Valid(ev.fs) /\ (Len(ev.fs) = 1 \/ Related(Tags(ev.fs), {Keys(ev)[i] : i \in 1..Len(Keys(ev))}))
Shut == cur' = 0 /\ L' = <<>> /\ offs' = <<>> /\ players' = EmptyFn /\ set' = <<>> /\ ends' = <<>>

MStep(ev) ==
  CASE ev.ev = "begin" -> files' = EmptyFn /\ ftags' = EmptyFn /\ keys' = DefaultKeys /\ Shut
    [] ev.ev = "make" -> /\ files' = Put(files, ev.f, MadeFile(ev)) /\ ftags' = Put(ftags, ev.f, TagFn(Opt(ev, "ftags", <<>>)))
                         /\ UNCHANGED <<cur, L, offs, players, keys, set, ends>>
    [] ev.ev = "damage" -> files' = [f \in DOMAIN files \ {ev.f} |-> files[f]] /\ UNCHANGED <<cur, L, offs, players, ftags, keys, set, ends>>
    [] ev.ev = "mopen" ->
         /\ keys' = Keys(ev)
         /\ IF ev.rc = 0 THEN /\ files' = TLCEval(Put(files, Whole, Merge(FilesOf(ev.fs)))) /\ cur' = Whole
                              /\ L' = TLCEval(Presented(files'[Whole])) /\ offs' = ev.offs /\ ends' = ev.ends /\ set' = ev.fs /\ players' = EmptyFn
            ELSE IF ev.was THEN UNCHANGED <<files, cur, L, offs, players, set, ends>>
            ELSE UNCHANGED files /\ Shut
         /\ UNCHANGED ftags
    [] ev.ev = "mclose" -> Shut /\ UNCHANGED <<files, ftags, keys>>
    [] ev.ev = "player" -> players' = Put(players, <<cur, ev.s>>, ev.p) /\ UNCHANGED <<files, cur, L, offs, ftags, keys, set, ends>>
    [] OTHER -> UNCHANGED <<files, cur, L, offs, players, ftags, keys, set, ends>>

\* where the record after the n-th one of the same file starts
MSizeOf(n) ==
  IF n >= Len(L) THEN 0
  ELSE LET k == L[n + 1].s \div 10
           later == {offs[j] : j \in {i \in 1..Len(L) : L[i].s \div 10 = k /\ offs[i] > offs[n + 1]}} \cup {ends[k]}
       IN (CHOOSE x \in later : \A y \in later : x <= y) - offs[n + 1]

StreamAt(t, inst) == LET S == {d \in DOMAIN F.streams : F.streams[d].t = t /\ F.streams[d].inst = inst} IN IF S = {} THEN -1 ELSE CHOOSE d \in S : TRUE

MAnswer(ev, q) ==
  CASE q = "size" -> MSizeOf(ev.n)
    [] q = "firstg" -> FirstOf(Where(L, LAMBDA r : r.ty = ev.ty))
    [] q = "lastg" -> LastOf(Where(L, LAMBDA r : r.ty = ev.ty))
    [] q = "splus" -> IF Len(set) = 1 THEN Answer(ev, q) ELSE StreamAt(ev.t, ev.n)
    [] q = "uid" -> IF ev.n < Len(L) THEN L[ev.n + 1].s ELSE -1
    [] q = "ftag" -> IF set = <<>> THEN "" ELSE FirstTag(Tags(set), ev.key)
    [] q \in {"serial", "total"} -> TRUE
    [] OTHER -> Answer(ev, q)

MConf(ev) ==
  LET SS == CASE ev.what = "stream" -> {ev.s} \cap DOMAIN F.streams
              [] ev.what = "type" -> {s \in DOMAIN F.streams : F.streams[s].t = ev.t}
              [] OTHER -> DOMAIN F.streams
      P(k) == IF ev.p > 0 THEN ev.p ELSE PlayerOf(L[k + 1].s)
      Ks(f) == FirstConfigs(L, {s \in SS : s \div 10 = f})
      C == {<<k, P(k)>> : k \in {j \in FirstConfigs(L, SS) : P(j) # 0}}
      good(f) == Ks(f) # {} /\ (ev.ret = 0 \/ \A k \in Ks(f) : P(k) = 0)
      asked == IF ev.what = "all" THEN 1..Len(set) ELSE {f \in 1..Len(set) : \E s \in SS : s \div 10 = f}
  IN IF cur = 0 THEN Same("conf.closed", <<ev.rc, ev.calls>>, <<0, <<>>>>)
     ELSE /\ Same("conf.calls", <<{ev.calls[j] : j \in 1..Len(ev.calls)}, Len(ev.calls)>>, <<C, Cardinality(C)>>)
          /\ Same("conf.result", ev.rc, IF asked # {} /\ \A f \in asked : good(f) THEN 1 ELSE 0)

MExpect(ev) ==
  CASE ev.ev = "mopen" ->
         IF ~Opens(ev) THEN Same("multi.refused", <<ev.rc, ev.opened>>, <<1, ev.was>>)
         ELSE /\ Same("multi.open", <<ev.rc, ev.opened>>, <<0, TRUE>>)
              /\ \E M \in {TLCEval(Merge(FilesOf(ev.fs)))} : \E P \in {TLCEval(Presented(M))} :
                   /\ Same("multi.streams", ev.st, [k \in 1..Cardinality(DOMAIN M.streams) |-> LET x == M.streams[StreamSeq(M)[k]] IN <<x.t, x.inst>>])
                   /\ Same("multi.ids", {ev.ids[k] : k \in 1..Len(ev.ids)}, {<<d, M.streams[d].t, M.streams[d].inst>> : d \in DOMAIN M.streams})
                   /\ Same("multi.index", ev.ix, [k \in 1..Len(P) |-> <<P[k].s, P[k].ty, P[k].ts>>])
                   /\ Same("multi.count", ev.n, Len(P))
    [] ev.ev = "mclose" -> Same("multi.close", <<ev.opened, ev.n>>, <<FALSE, 0>>) /\ (IF ev.was THEN Same("multi.close", ev.rc, 0) ELSE TRUE)
    [] ev.ev = "q" ->
         CASE ev.q = "near" -> LET N == Nearest(L, ev.s, ev.ty, ev.ts, ev.eps) IN IF ev.r \in N THEN TRUE ELSE Same("multi.near", {ev.r}, N)
           [] ev.q = "fmts" -> FormatsExpect(ev)
           [] ev.q = "chunks" -> Same("multi.chunks", <<ev.r, ev.own>>, <<Len(set), TRUE>>)
           [] ev.q = "serial" -> IF cur # 0 /\ ev.s \in DOMAIN F.streams THEN Same("multi.serial", ev.r, TRUE) ELSE TRUE
           [] ev.q = "gi" -> Same("multi.gi", <<ev.r, ev.alien>>, <<Answer(ev, "gi"), Len(L)>>)
           [] OTHER -> Same("multi." \o ev.q, ev.r, MAnswer(ev, ev.q))
    [] ev.ev = "read" -> IF Opt(ev, "alien", FALSE) THEN Same("multi.alien", <<ev.rc # 0, ev.calls>>, <<TRUE, <<>>>>) ELSE ReadExpect(ev)
    [] ev.ev = "conf" -> MConf(ev)
    [] ev.ev = "make" -> Same("make", ev.rc, 0)
    [] OTHER -> TRUE

MInit == Init /\ ftags = EmptyFn /\ keys = DefaultKeys /\ set = <<>> /\ ends = <<>>
MNext == l <= Len(Trace) /\ MExpect(Trace[l]) /\ MStep(Trace[l]) /\ l' = l + 1
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
