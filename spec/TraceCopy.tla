----------------------------- MODULE TraceCopy -----------------------------
(* Checks recorded sessions of FilteredFileReader, filterCopy, filterMerge,*)
(* checkRecords and compareVRSfiles against Copy.                          *)
EXTENDS Copy, TraceBase

VARIABLES l,
          lib,   \* number -> file
          sums   \* checksums seen: <<essence, checksum>>
vars == <<l, lib, sums>>

EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rec(r) == [k |-> r[1], ty |-> r[2], ts |-> r[3], c |-> <<r[4], r[5], r[6]>>]
FileOf(g) == [ft |-> g.ft, streams |-> g.streams, recs |-> [i \in 1..Len(g.recs) |-> Rec(g.recs[i])]]

Sets(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.tags = Range(@), !.vrs = Range(@)]]

\* the selection that a filter makes in a file; T: the data record times which relative times refer to
SelOf(F, flt, T) ==
  LET S == StreamSel(F, Opt(flt, "st", <<>>)) IN
  [S |-> S, T |-> TypeSel([i \in 1..Len(Opt(flt, "ty", <<>>)) |-> <<flt.ty[i][1], CASE flt.ty[i][3] = 1 -> State [] flt.ty[i][3] = 2 -> Config [] OTHER -> Data>>]),
   lh |-> Resolve(Opt(flt, "min", <<NInf, FALSE>>), Opt(flt, "max", <<PInf, FALSE>>), Opt(flt, "around", FALSE), TimeRange(T)),
   first |-> Opt(flt, "first", FALSE),
   dec |-> [i \in 1..Len(Opt(flt, "dec", <<>>)) |-> <<Matched(F, flt.dec[i]), flt.dec[i].iv>>]]
Sel(F, flt) == SelOf(F, flt, DataTimes(F, StreamSel(F, Opt(flt, "st", <<>>))))
Flt(ev) == Opt(ev, "flt", EmptyFn)

Has(f) == f \in DOMAIN lib

Step(ev) ==
  CASE ev.ev = "begin" -> lib' = EmptyFn /\ sums' = {}
    [] ev.ev \in {"make", "copy", "merge"} ->
         /\ lib' = IF "got" \in DOMAIN ev /\ ev.got.rc = 0 THEN Put(lib, IF ev.ev = "make" THEN ev.f ELSE ev.g, FileOf(ev.got)) ELSE lib
         /\ UNCHANGED sums
    [] ev.ev = "sum" ->
         /\ sums' = IF ev.rc = 0 /\ ev.how # "check" /\ Valid(lib[ev.f], Sel(lib[ev.f], Flt(ev)).lh) THEN sums \cup {<<Essence(lib[ev.f], Sel(lib[ev.f], Flt(ev))), ev.r>>} ELSE sums
         /\ UNCHANGED lib
    [] OTHER -> UNCHANGED <<lib, sums>>

\* a file made by the driver is what it was asked to be (the identifiers of streams come with it)
MakeExpect(ev) ==
  LET G == FileOf(ev.got)
      O == [i \in 1..Len(ev.recs) |-> Rec(ev.recs[i])]
  IN /\ Same("make", <<ev.rc, ev.got.rc>>, <<0, 0>>)
     /\ Same("make.streams", [i \in 1..Len(G.streams) |-> <<G.streams[i].t, G.streams[i].fl>>], [i \in 1..Len(ev.streams) |-> <<ev.streams[i].t, ev.streams[i].fl>>])
     /\ \A k \in 1..Len(G.streams) :
          LET got == SelectSeq(G.recs, LAMBDA r : r.k = k)
              all == SelectSeq(O, LAMBDA r : r.k = k)
              T == SortInts({all[i].ts : i \in 1..Len(all)})
              RECURSIVE By(_)
              By(i) == IF i > Len(T) THEN <<>> ELSE SelectSeq(all, LAMBDA r : r.ts = T[i]) \o By(i + 1)
          IN Same("make.records", got, By(1))

IterExpect(ev) ==
  IF ~Has(ev.f) THEN Same("iterate.absent", ev.rc, 1)
  ELSE LET F == lib[ev.f]
           sel == Sel(F, Flt(ev))
           v == Visits(F, sel)
           r == TimeRange(DataTimes(F, sel.S))
       IN /\ Same("iterate.open", <<ev.rc, ev.ok>>, <<0, TRUE>>)
          /\ Same("iterate.streams", ev.sel, SortInts(sel.S))
          /\ Same("iterate.range", <<ev.start, ev.end>>, r)
          /\ Same("iterate.visits", ev.at, v)
          /\ Same("iterate.content", [i \in 1..Len(ev.seen) |-> Rec(ev.seen[i])], [i \in 1..Len(v) |-> F.recs[v[i]]])
          /\ Same("iterate.count", ev.n, IF Valid(F, sel.lh) THEN Len(Within(F, sel)) ELSE 0)
          /\ Same("iterate.index", ev.bi, v)

CopyExpect(ev) ==
  IF ~Has(ev.f) THEN Same("copy.absent", ev.open, 1)
  ELSE LET F == lib[ev.f]
           sel == Sel(F, Flt(ev))
           opt == Opt(ev, "opt", EmptyFn)
           ov == Opt(opt, "ov", [ft |-> <<>>, st |-> <<>>])
           SS == CopyStreams(F, sel.S)
           RR == CopyRecs(F, sel)
       IN /\ Same("copy.open", <<ev.open, ev.ok>>, <<0, TRUE>>)
          /\ IF Opt(ev, "bad", FALSE) THEN Same("copy.refused", ev.rc, 1)
             ELSE /\ Same("copy", <<ev.rc, ev.got.rc, ev.n, ev.got.n>>, <<0, 0, Len(RR), Len(RR)>>)
                  /\ Same("copy.filetags", Range(ev.got.ft), Override(F.ft, ov.ft))
                  /\ Same("copy.streams", Sets(ev.got.streams),
                          [j \in 1..Len(SS) |-> [SS[j] EXCEPT !.vrs = Range(@),
                             !.tags = Override(@, [i \in 1..Len(SelectSeq(ov.st, LAMBDA q : q[1] = SS[j].t /\ q[2] = SS[j].inst)) |->
                                LET q == SelectSeq(ov.st, LAMBDA z : z[1] = SS[j].t /\ z[2] = SS[j].inst)[i] IN <<q[3], q[4]>>])]])
                  /\ Same("copy.records", FileOf(ev.got).recs, RR)

MergeExpect(ev) ==
  IF \E i \in 1..Len(ev.fs) : ~Has(ev.fs[i]) THEN Same("merge.absent", ev.open, 1)
  ELSE LET Fs == [i \in 1..Len(ev.fs) |-> lib[ev.fs[i]]]
           flt(i) == Flt(ev.flts[i])
           T == UNION {DataTimes(Fs[i], StreamSel(Fs[i], Opt(flt(i), "st", <<>>))) : i \in 1..Len(Fs)}
           sels == TLCEval([i \in 1..Len(Fs) |-> SelOf(Fs[i], flt(i), T)])
           opt == Opt(ev, "opt", EmptyFn)
           ov == Opt(opt, "ov", [ft |-> <<>>, st |-> <<>>])
           out == TLCEval(MergedStreams(<<>>, Fs, sels, 1, Opt(opt, "merge", FALSE)))
           o == OutOrder(out)
       IN /\ Same("merge.open", <<ev.open, ev.ok>>, <<0, TRUE>>)
          /\ Same("merge", <<ev.rc, ev.got.rc>>, <<0, 0>>)
          /\ Same("merge.filetags", Range(ev.got.ft), Override(FileTags(<<>>, Fs), ov.ft))
          /\ Same("merge.streams", [j \in 1..Len(ev.got.streams) |-> <<ev.got.streams[j].t, ev.got.streams[j].fl, Range(ev.got.streams[j].tags), Range(ev.got.streams[j].vrs)>>],
                                   [j \in 1..Len(o) |-> LET x == out[o[j]] IN <<x.t, x.fl, Range(x.tags), Range(x.vrs)>>])
          /\ LET G == FileOf(ev.got) IN
               /\ \A j \in 1..Len(o) :
                 LET q == SelectSeq(G.recs, LAMBDA r : r.k = j)
                     g == [i \in 1..Len(q) |-> [q[i] EXCEPT !.k = 0]]
                 IN IF GoodMerge(Fs, sels, out[o[j]], g) THEN TRUE ELSE Same("merge.records", <<j, g>>, Candidates(Fs, sels, out[o[j]]))
               /\ Same("merge.count", <<ev.n, ev.got.n>>, <<Len(G.recs), Len(G.recs)>>)

SumExpect(ev) ==
  IF ~Has(ev.f) THEN Same("sum.absent", ev.rc, 1)
  ELSE LET F == lib[ev.f]
           sel == Sel(F, Flt(ev))
           E == TLCEval(Essence(F, sel))
       IN /\ Same("sum.open", <<ev.rc, ev.ok>>, <<0, TRUE>>)
          /\ IF ~Valid(F, sel.lh) THEN Same("sum.invalid", ev.r = "<invalid timerange>" \/ ev.r = "invalid", TRUE)
             ELSE IF ev.how = "check" THEN Same("sum.check", <<ev.r, ev.n>>, <<"good", Len(Within(F, sel))>>)
             ELSE IF \A x \in sums : (x[1] = E) = (x[2] = ev.r) THEN TRUE
             ELSE LET x == CHOOSE y \in sums : (y[1] = E) # (y[2] = ev.r) IN
                  IF x[1] = E THEN Same("sum.equal", ev.r, x[2]) ELSE Same("sum.distinct", <<ev.r, "of", E>>, <<"not the checksum of other content", "of", x[1]>>)

CmpExpect(ev) ==
  IF ~Has(ev.f) \/ ~Has(ev.g) THEN Same("cmp.absent", ev.rc, 1)
  ELSE LET F == lib[ev.f]
           G == lib[ev.g]
           fs == Sel(F, Flt(ev))
           gs == Sel(G, Flt(ev))
       IN /\ Same("cmp.open", <<ev.rc, ev.ok>>, <<0, TRUE>>)
          /\ IF Valid(F, fs.lh) /\ ~Valid(G, gs.lh) THEN TRUE \* the empty file, and a range which is none in the other
             ELSE Same("cmp", ev.r, Valid(F, fs.lh) /\ Valid(G, gs.lh) /\ Essence(F, fs) = Essence(G, gs))

\* files as bytes: the same ones with the same bytes altered the same way, however they are cut
RawExpect(ev) ==
  LET same == ev.a.n = ev.b.n /\ ev.a.flips = ev.b.flips
      here(x) == ~Opt(x, "absent", FALSE)
      both == here(ev.a) /\ here(ev.b)
  IN /\ Same("raw.compare", <<ev.cmp, ev.back>>, <<both /\ same, both /\ same>>)
     /\ IF both THEN Same("raw.checksum", ev.sa = ev.sb, same)
        ELSE /\ Same("raw.absent", <<ev.sa = "<file open error>", ev.sb = "<file open error>">>, <<~here(ev.a), ~here(ev.b)>>)

Expect(ev) ==
  CASE ev.ev = "make" -> MakeExpect(ev)
    [] ev.ev = "iterate" -> IterExpect(ev)
    [] ev.ev = "copy" -> CopyExpect(ev)
    [] ev.ev = "merge" -> MergeExpect(ev)
    [] ev.ev = "sum" -> SumExpect(ev)
    [] ev.ev = "cmp" -> CmpExpect(ev)
    [] ev.ev = "raw" -> RawExpect(ev)
    [] OTHER -> TRUE

Init == l = 1 /\ lib = EmptyFn /\ sums = {}
Next == /\ l <= Len(Trace)
        /\ Expect(Trace[l])
        /\ Step(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
