----------------------------- MODULE TraceReader -----------------------------
(* Checks recorded sessions of RecordFileReader against Reader.            *)
EXTENDS Reader, TraceBase

VARIABLES l,
          files,    \* number -> file
          cur,      \* number of the open file, 0: none
          L,        \* its records as presented
          offs,     \* where the records are stored; where they end
          players   \* stream -> player
vars == <<l, files, cur, L, offs, players>>

EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoFile == [streams |-> EmptyFn, recs |-> <<>>]
F == IF cur = 0 THEN NoFile ELSE files[cur]

TagFn(q) == [k \in {q[i][1] : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = k /\ \A j \in (i + 1)..Len(q) : q[j][1] # k][2]]

MadeFile(ev) ==
  [ streams |-> [s \in {ev.ids[i][1] : i \in 1..Len(ev.ids)} |->
       LET i == CHOOSE i \in 1..Len(ev.ids) : ev.ids[i][1] = s
           j == CHOOSE j \in 1..Len(ev.streams) : ev.streams[j].s = s
       IN [t |-> ev.ids[i][2], inst |-> ev.ids[i][3], fl |-> ev.streams[j].fl, fmts |-> Opt(ev.streams[j], "fmts", <<>>), tags |-> TagFn(Opt(ev.streams[j], "tags", <<>>))]],
    recs |-> [k \in 1..Len(ev.recs) |-> LET r == ev.recs[k] IN [s |-> r[1], ty |-> r[2], ts |-> r[3], id |-> r[4], sz |-> r[5], ord |-> k]] ]

\* players are attached to stream identifiers, whatever the file that is open
PlayerKey(s) == IF cur \in 1..999 /\ s \in DOMAIN files[cur].streams THEN <<files[cur].streams[s].t, files[cur].streams[s].inst>> ELSE <<cur, s>>

Step(ev) ==
  CASE ev.ev = "begin" -> files' = EmptyFn /\ cur' = 0 /\ L' = <<>> /\ offs' = <<>> /\ players' = EmptyFn
    [] ev.ev = "make" -> files' = Put(files, ev.f, MadeFile(ev)) /\ UNCHANGED <<cur, L, offs, players>>
    [] ev.ev = "open" -> /\ IF ev.rc = 0 THEN cur' = ev.f /\ L' = TLCEval(Presented(files[ev.f])) ELSE cur' = 0 /\ L' = <<>>
                         /\ offs' = Append(ev.offs, ev.end) /\ players' = (IF Opt(ev, "fresh", FALSE) THEN EmptyFn ELSE players) /\ UNCHANGED files
    [] ev.ev = "close" -> cur' = 0 /\ L' = <<>> /\ offs' = <<>> /\ UNCHANGED <<files, players>>
    [] ev.ev = "player" -> players' = Put(players, PlayerKey(ev.s), ev.p) /\ UNCHANGED <<files, cur, L, offs>>
    [] ev.ev = "clearplayers" -> players' = EmptyFn /\ UNCHANGED <<files, cur, L, offs>>
    [] OTHER -> UNCHANGED <<files, cur, L, offs, players>>

PlayerOf(s) == IF PlayerKey(s) \in DOMAIN players THEN players[PlayerKey(s)] ELSE 0

Hdr(r) == <<r.s, r.ty, r.ts, r.id, r.sz>>

\* size on disk: up to the record stored next
SizeOf(n) ==
  IF n >= Len(L) THEN 0
  ELSE LET later == {offs[k] : k \in {j \in 1..Len(offs) : offs[j] > offs[n + 1]}} IN (CHOOSE x \in later : \A y \in later : x <= y) - offs[n + 1]

Answer(ev, q) ==
  CASE q = "nthg" -> Nth(L, ev.n)
    [] q = "nth" -> NthInStream(L, ev.s, ev.n)
    [] q = "nthty" -> NthOfType(L, ev.s, ev.ty, ev.n)
    [] q = "last" -> LastOfType(L, ev.s, ev.ty)
    [] q = "bt" -> FirstFrom(L, 0, 0, ev.ts)
    [] q = "btty" -> FirstFrom(L, 0, ev.ty, ev.ts)
    [] q = "bts" -> FirstFrom(L, ev.s, 0, ev.ts)
    [] q = "btsty" -> FirstFrom(L, ev.s, ev.ty, ev.ts)
    [] q = "gi" -> IF ev.n < Len(L) THEN ev.n ELSE Len(L)
    [] q = "gsi" -> IF ev.n < Len(L) THEN InStream(L, ev.n) ELSE -1
    [] q = "cnt" -> Len(OfStream(L, ev.s))
    [] q = "cntty" -> Len(OfType(L, ev.s, ev.ty))
    [] q = "cntg" -> Len(L)
    [] q = "size" -> SizeOf(ev.n)
    [] q = "sft" -> StreamForType(F, ev.t, ev.n)
    [] q = "sff" -> StreamForFlavor(F, ev.t, ev.fl, ev.n)
    [] q = "stag" -> StreamForTag(F, ev.key, ev.val, ev.t)
    [] q = "ssnx" -> -1
    [] q \in {"sname", "ssn"} -> IF ev.s \in DOMAIN F.streams THEN ev.s ELSE -1
    [] q = "splus" -> IF ev.n = 0 THEN -1 ELSE StreamForType(F, ev.t, ev.n - 1)
    [] q = "sty" -> StreamsOf(F, ev.t, ev.fl)
    [] q = "idx" -> OfStream(L, ev.s)
    [] q = "fl" -> FlavorOf(F, ev.s)
    [] q = "tag" -> TagOf(F, ev.s, ev.key)
    [] q = "names" -> TRUE
    [] q = "chunks" -> IF cur = 0 THEN 0 ELSE 1

\* the formats of a stream, the layouts of their blocks, and what its data records may contain
FormatsExpect(ev) ==
  LET D == IF ev.s \in DOMAIN F.streams THEN F.streams[ev.s].fmts ELSE <<>>
      last == SelectSeq([k \in 1..Len(D) |-> k], LAMBDA k : \A j \in (k + 1)..Len(D) : <<D[j].ty, D[j].ver>> # <<D[k].ty, D[k].ver>>)
      data(k) == cur # 0 /\ D[k].ty = 3 /\ \E j \in 1..Len(L) : L[j].s = ev.s /\ L[j].ty = 3
  IN /\ Same("formats", {<<x.ty, x.ver, x.f, x.l>> : x \in {ev.r[j] : j \in 1..Len(ev.r)}}, {<<D[k].ty, D[k].ver, D[k].f, D[k].l>> : k \in {last[j] : j \in 1..Len(last)}})
     /\ Same("formats.count", <<ev.n, Len(ev.r)>>, <<Len(last), Len(last)>>)
     /\ Same("formats.images", ev.im, \E j \in 1..Len(last) : D[last[j]].im /\ data(last[j]))
     /\ Same("formats.audio", ev.au, \E j \in 1..Len(last) : D[last[j]].au /\ data(last[j]))

\* no data record: the time is zero
Times(ev) == LET d == DataTime(L, ev.q = "lt") IN IF d = <<>> THEN ev.zero ELSE ev.r = d[1]

ReadExpect(ev) ==
  LET r == L[ev.i + 1]
      p == IF ev.p > 0 THEN ev.p ELSE PlayerOf(r.s)
      req == CASE ev.kind = "req" -> ev.n [] OTHER -> r.sz
      taken == ev.kind # "decline" /\ req <= r.sz
      hr == Opt(ev, "hread", -1)
      hn == IF hr > r.sz THEN r.sz ELSE hr
      ps == Opt(ev, "pieces", <<>>)
      ns == <<req>> \o [k \in 1..Len(ps) |-> ps[k][2]]
      st == Steps(r.sz, ns)
  IN IF p = 0 THEN Same("read.noplayer", <<ev.rc, ev.by, ev.calls>>, <<0, 0, <<>>>>)
     ELSE /\ Same("read.header", <<ev.by, ev.hdr, ev.calls>>, <<p, Hdr(r), <<<<ev.i, p>>>>>>)
          /\ IF hr >= 0 THEN /\ Same("read.early", ev.steps, <<<<"h", hn, 0, r.sz - hn, TRUE>>>>)
                             /\ Same("read.rc", ev.rc, 0)
             ELSE IF ~taken THEN Same("read.declined", <<ev.rc, ev.steps>>, <<0, <<>>>>)
             ELSE /\ Same("read.steps", [k \in 1..Len(ev.steps) |-> <<ev.steps[k][2], ev.steps[k][3], ev.steps[k][4]>>], st)
                  /\ Same("read.content", \A k \in 1..Len(ev.steps) : ev.steps[k][5], TRUE)
                  /\ Same("read.rc", ev.rc, ev.ret)

\* readAllRecords: up to a player's error
AllExpect(ev) ==
  LET P(k) == PlayerOf(L[k].s)
      hit == SelectSeq([k \in 1..Len(L) |-> k], LAMBDA k : P(k) # 0)
      n == IF ev.ret # 0 /\ Len(hit) > 1 THEN 1 ELSE Len(hit)
  IN IF cur = 0 THEN Same("all.closed", <<ev.rc # 0, ev.calls>>, <<TRUE, <<>>>>)
     ELSE /\ Same("all.calls", ev.calls, [j \in 1..n |-> <<hit[j] - 1, P(hit[j])>>])
          /\ Same("all.rc", ev.rc, IF hit = <<>> THEN 0 ELSE ev.ret)

\* the order in which the first configuration records are read is free
ConfExpect(ev) ==
  LET SS == CASE ev.what = "stream" -> {ev.s} \cap DOMAIN F.streams
              [] ev.what = "type" -> {s \in DOMAIN F.streams : F.streams[s].t = ev.t}
              [] OTHER -> DOMAIN F.streams
      K == FirstConfigs(L, SS)
      P(k) == IF ev.p > 0 THEN ev.p ELSE PlayerOf(L[k + 1].s)
      C == {<<k, P(k)>> : k \in {j \in K : P(j) # 0}}
  IN /\ Same("conf.calls", <<{ev.calls[j] : j \in 1..Len(ev.calls)}, Len(ev.calls)>>, <<C, Cardinality(C)>>)
     /\ Same("conf.result", ev.rc, IF K # {} /\ (C = {} \/ ev.ret = 0) THEN 1 ELSE 0)

Expect(ev) ==
  CASE ev.ev = "make" -> Same("make", ev.rc, 0)
    [] ev.ev = "open" ->
         IF ev.f \notin DOMAIN files THEN Same("open.absent", <<ev.rc, ev.ix, ev.streams, ev.opened>>, <<1, <<>>, <<>>, FALSE>>)
         ELSE \E P \in {TLCEval(Presented(files[ev.f]))} :
                /\ Same("open", <<ev.rc, ev.opened, ev.streams>>, <<0, TRUE, StreamSeq(files[ev.f])>>)
                /\ Same("open.index", ev.ix, [k \in 1..Len(P) |-> <<P[k].s, P[k].ty, P[k].ts>>])
    [] ev.ev = "close" -> Same("close", <<ev.rc, ev.opened, ev.n>>, <<0, FALSE, 0>>)
    [] ev.ev = "q" ->
         CASE ev.q \in {"ft", "lt"} -> Same("lookup." \o ev.q, Times(ev), TRUE)
           [] ev.q = "fmts" -> FormatsExpect(ev)
           [] ev.q = "chunks" -> Same("chunks", <<ev.r, ev.own>>, <<Answer(ev, "chunks"), TRUE>>)
           [] ev.q = "near" -> LET N == Nearest(L, ev.s, ev.ty, ev.ts, ev.eps) IN IF ev.r \in N THEN TRUE ELSE Same("lookup.near", {ev.r}, N)
           [] OTHER -> Same("lookup." \o ev.q, ev.r, Answer(ev, ev.q))
    [] ev.ev = "read" -> ReadExpect(ev)
    [] ev.ev = "all" -> AllExpect(ev)
    [] ev.ev = "conf" -> ConfExpect(ev)
    [] OTHER -> TRUE

Init == l = 1 /\ files = EmptyFn /\ cur = 0 /\ L = <<>> /\ offs = <<>> /\ players = EmptyFn
Next == /\ l <= Len(Trace)
        /\ Expect(Trace[l])
        /\ Step(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
