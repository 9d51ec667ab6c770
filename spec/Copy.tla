-------------------------------- MODULE Copy --------------------------------
(***************************************************************************)
(* Contents of files, and what filtered reading, copying, merging,         *)
(* comparing and summing give, in terms of these contents.                 *)
(*                                                                         *)
(* A file: [ft, streams, recs]. ft and the tags of a stream: sequences of  *)
(* <<name, value>> without repeated name (their order is only used where   *)
(* tags are merged). streams: in identifier order (type, then instance).   *)
(* recs: as presented, [k |-> stream number, ty, ts, c] where c is         *)
(* everything else that a record holds (version, payload).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

PInf == 1000000
NInf == -1000000
Config == 2
State == 1
Data == 3

Range(q) == {q[i] : i \in 1..Len(q)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SortInts(S \ {m})

---------------------------------------------------------------------------
\* Filters
\* one stream filter: [sign, k, t, n, fl], k is "id", "plus" (n-th of the type), "type", "dash" or "flavor"
OfType(F, t) == {i \in 1..Len(F.streams) : F.streams[i].t = t}
Matched(F, x) ==
  CASE x.k = "id" -> {i \in OfType(F, x.t) : F.streams[i].inst = x.n}
    [] x.k = "plus" -> {i \in OfType(F, x.t) : Cardinality({j \in OfType(F, x.t) : j <= i}) = x.n}
    [] x.k \in {"type", "dash"} -> OfType(F, x.t)
    [] x.k = "flavor" -> {i \in OfType(F, x.t) : F.streams[i].fl = x.fl}

\* filters apply in order; the first one tells whether it starts from nothing or from everything
RECURSIVE Choose(_, _, _)
Choose(acc, fs, m) == \* m: what each filter selects
  IF fs = <<>> THEN acc
  ELSE Choose(IF Head(fs) = "+" THEN acc \cup Head(m) ELSE acc \ Head(m), Tail(fs), Tail(m))
Pick0(all, signs, m) == IF signs = <<>> THEN all ELSE Choose(IF Head(signs) = "+" THEN {} ELSE all, signs, m)

StreamSel(F, fs) == Pick0(1..Len(F.streams), [i \in 1..Len(fs) |-> fs[i].sign], [i \in 1..Len(fs) |-> Matched(F, fs[i])])
TypeSel(fs) == Pick0({State, Config, Data}, [i \in 1..Len(fs) |-> fs[i][1]], [i \in 1..Len(fs) |-> {fs[i][2]}])

DataTimes(F, S) == {F.recs[i].ts : i \in {j \in 1..Len(F.recs) : F.recs[j].k \in S /\ F.recs[j].ty = Data}}

\* [first, last data record time], PInf and NInf when there is none
TimeRange(T) == IF T = {} THEN <<PInf, NInf>> ELSE <<MinOf(T), MaxOf(T)>>

Sum(a, b) == IF a \in {PInf, NInf} THEN a ELSE IF b \in {PInf, NInf} THEN b ELSE a + b
\* min and max: <<value, relative>>
Resolve(min, max, around, r) ==
  LET lo == IF min[2] THEN Sum(IF min[1] < 0 THEN r[2] ELSE r[1], min[1]) ELSE min[1]
      w == IF max[1] < 0 THEN -max[1] ELSE max[1]
      hi == IF max[2] THEN Sum(IF max[1] < 0 THEN r[2] ELSE r[1], max[1]) ELSE max[1]
  IN IF around THEN <<Sum(lo, -(w \div 2)), Sum(lo, w \div 2)>> ELSE <<lo, hi>>

\* time range valid: an empty file always is
Valid(F, lh) == F.recs = <<>> \/ lh[1] <= lh[2]

In(F, S, T, i) == F.recs[i].k \in S /\ F.recs[i].ty \in T
Body(F, S, T, lh, first) ==
  LET B == {i \in 1..Len(F.recs) : In(F, S, T, i) /\ lh[1] <= F.recs[i].ts /\ F.recs[i].ts <= lh[2]}
  IN IF first THEN {i \in B : \A j \in B : j < i => <<F.recs[j].k, F.recs[j].ty>> # <<F.recs[i].k, F.recs[i].ty>>} ELSE B
\* when starting part-way: the configuration and state in force
Preroll(F, S, T, lh) ==
  IF lh[1] = NInf \/ \A i \in 1..Len(F.recs) : F.recs[i].ts < lh[1] THEN {}
  ELSE {i \in 1..Len(F.recs) : /\ In(F, S, T \cap {Config, State}, i) /\ F.recs[i].ts < lh[1]
                               /\ \A j \in (i + 1)..Len(F.recs) :
                                    F.recs[j].k = F.recs[i].k /\ F.recs[j].ty = F.recs[i].ty => F.recs[j].ts >= lh[1]}

\* decimation: of the streams asked for (dec: pairs <<streams, interval>>, the last one which names a stream
\* is the one in use), data records come at least an interval after the previous one kept
Interval(dec, k) ==
  LET I == {i \in 1..Len(dec) : k \in dec[i][1]} IN IF I = {} THEN 0 ELSE dec[MaxOf(I)][2]
RECURSIVE Thinned(_, _, _, _)
Thinned(F, dec, todo, last) == \* last: the time of the last record kept of each stream
  IF todo = <<>> THEN <<>>
  ELSE LET x == F.recs[Head(todo)]
           iv == Interval(dec, x.k)
       IN IF x.ty # Data \/ iv = 0 THEN <<Head(todo)>> \o Thinned(F, dec, Tail(todo), last)
          ELSE IF last[x.k] # NInf /\ x.ts < last[x.k] + iv THEN Thinned(F, dec, Tail(todo), last)
          ELSE <<Head(todo)>> \o Thinned(F, dec, Tail(todo), [last EXCEPT ![x.k] = x.ts])
Within(F, sel) ==
  LET q == SortInts(Body(F, sel.S, sel.T, sel.lh, sel.first)) IN
  IF sel.dec = <<>> THEN q ELSE Thinned(F, sel.dec, q, [k \in 1..Len(F.streams) |-> NInf])

\* what a filter visits: its positions, in file order; first those before the time range
Visits(F, sel) ==
  IF ~Valid(F, sel.lh) THEN <<>>
  ELSE SortInts(Preroll(F, sel.S, sel.T, sel.lh)) \o Within(F, sel)

All(F) == [S |-> 1..Len(F.streams), T |-> {State, Config, Data}, lh |-> <<NInf, PInf>>, first |-> FALSE, dec |-> <<>>]

---------------------------------------------------------------------------
\* Copies
Override(tags, ov) == {p \in Range(tags) : \A q \in Range(ov) : q[1] # p[1]} \cup Range(ov)

\* the content which a copy of a selection should have (tags as sets; ovf, ovs: the overrides of
\* file tags and, by new stream, of stream tags)
CopyStreams(F, S) ==
  LET o == SortInts(S) IN
  [j \in 1..Len(o) |-> [F.streams[o[j]] EXCEPT !.inst = Cardinality({h \in 1..j : F.streams[o[h]].t = F.streams[o[j]].t})]]
CopyRecs(F, sel) ==
  LET v == Visits(F, sel)
      o == SortInts(sel.S)
  IN [j \in 1..Len(v) |-> [F.recs[v[j]] EXCEPT !.k = CHOOSE h \in 1..Len(o) : o[h] = @]]

\* the content of a file or of a selection, whatever the numbers of its streams
Essence(F, sel) ==
  LET ss == CopyStreams(F, sel.S)
      rr == CopyRecs(F, sel)
  IN [ft |-> Range(F.ft),
      streams |-> [j \in 1..Len(ss) |->
         [t |-> ss[j].t, tags |-> Range(ss[j].tags), vrs |-> Range(ss[j].vrs),
          recs |-> LET q == SelectSeq(rr, LAMBDA r : r.k = j) IN [n \in 1..Len(q) |-> [q[n] EXCEPT !.k = 0]]]]]

---------------------------------------------------------------------------
\* Merges
\* adding tags to those already there: a name keeps its first value; another value of a user tag
\* gets a new name
Names(q) == {q[i][1] : i \in 1..Len(q)}
ValueOf(q, n) == q[CHOOSE i \in 1..Len(q) : q[i][1] = n][2]
RECURSIVE Numbered(_, _, _)
Numbered(n, used, i) == IF n \o "_merged-" \o ToString(i) \in used THEN Numbered(n, used, i + 1) ELSE n \o "_merged-" \o ToString(i)
NewName(n, used) == IF n \o "_merged" \in used THEN Numbered(n, used, 1) ELSE n \o "_merged"
RECURSIVE Added(_, _, _, _, _)
Added(old, new, k, out, private) ==
  IF k > Len(new) THEN out
  ELSE LET p == new[k] IN
       Added(old, new, k + 1,
             IF p[1] \notin Names(old) THEN Append(out, p)
             ELSE IF ValueOf(old, p[1]) = p[2] \/ private THEN out
             ELSE Append(out, <<NewName(p[1], Names(old) \cup Names(new) \cup Names(out)), p[2]>>), private)
MergeTags(old, new, private) == old \o Added(old, new, 1, <<>>, private)

RECURSIVE FileTags(_, _)
FileTags(acc, Fs) == IF Fs = <<>> THEN acc ELSE FileTags(MergeTags(acc, Head(Fs).ft, FALSE), Tail(Fs))

\* streams of the merge, in creation order: [t, fl, tags, vrs, from], from: the <<file, stream>> it gets
RECURSIVE NthOfType(_, _, _, _)
NthOfType(out, t, n, k) == \* the n-th stream of type t, 0 if there isn't
  IF k > Len(out) THEN 0
  ELSE IF out[k].t # t THEN NthOfType(out, t, n, k + 1)
  ELSE IF n = 1 THEN k ELSE NthOfType(out, t, n - 1, k + 1)
NewOut(x, f, s) == [t |-> x.t, fl |-> x.fl, tags |-> x.tags, vrs |-> x.vrs, from |-> {<<f, s>>}]
AddTo(o, x, f, s) == [o EXCEPT !.tags = MergeTags(o.tags, x.tags, FALSE), !.vrs = MergeTags(o.vrs, x.vrs, TRUE), !.from = @ \cup {<<f, s>>}]
RECURSIVE OutOf(_, _, _, _, _, _)
OutOf(out, F, f, todo, seen, together) == \* todo: the selected streams of file f in order; seen: those done
  IF todo = <<>> THEN out
  ELSE LET s == Head(todo)
           x == F.streams[s]
           n == Cardinality({j \in seen : F.streams[j].t = x.t}) + 1
           k == IF together /\ f > 1 THEN NthOfType(out, x.t, n, 1) ELSE 0
       IN OutOf(IF k = 0 THEN Append(out, NewOut(x, f, s)) ELSE [out EXCEPT ![k] = AddTo(@, x, f, s)],
                F, f, Tail(todo), seen \cup {s}, together)
RECURSIVE MergedStreams(_, _, _, _, _)
MergedStreams(out, Fs, sels, f, together) ==
  IF f > Len(Fs) THEN out
  ELSE MergedStreams(OutOf(out, Fs[f], f, SortInts(sels[f].S), {}, together), Fs, sels, f + 1, together)

\* in identifier order: by type, then creation
OutOrder(out) == LET B(a, b) == out[a].t < out[b].t \/ (out[a].t = out[b].t /\ a < b)
                     Rank(a) == Cardinality({b \in 1..Len(out) : B(b, a)}) + 1
                 IN [k \in 1..Len(out) |-> CHOOSE a \in 1..Len(out) : Rank(a) = k]

\* records that one output stream may get; of those with the same time and type (duplicates) one is kept
Candidates(Fs, sels, o) ==
  UNION {LET v == Visits(Fs[x[1]], sels[x[1]]) IN
         {[Fs[x[1]].recs[v[j]] EXCEPT !.k = 0] : j \in {i \in 1..Len(v) : Fs[x[1]].recs[v[i]].k = x[2]}} : x \in o.from}
\* in the order of a source, the first of each time and type
OfSource(Fs, sels, x) ==
  LET v == Visits(Fs[x[1]], sels[x[1]])
      q == SelectSeq([j \in 1..Len(v) |-> [Fs[x[1]].recs[v[j]] EXCEPT !.k = IF @ = x[2] THEN 0 ELSE -1]], LAMBDA r : r.k = 0)
  IN SelectSeq([j \in 1..Len(q) |-> [r |-> q[j], keep |-> \A i \in 1..(j - 1) : <<q[i].ts, q[i].ty>> # <<q[j].ts, q[j].ty>>]], LAMBDA y : y.keep)

GoodMerge(Fs, sels, o, got) == \* got: the records of the output stream, .k = 0
  LET C == Candidates(Fs, sels, o)
      K == {<<r.ts, r.ty>> : r \in C}
  IN /\ \A i \in 1..Len(got) : got[i] \in C /\ (i > 1 => got[i - 1].ts <= got[i].ts)
     /\ {<<got[i].ts, got[i].ty>> : i \in 1..Len(got)} = K
     /\ Len(got) = Cardinality(K)
     /\ Cardinality(o.from) = 1 =>
          LET q == OfSource(Fs, sels, CHOOSE x \in o.from : TRUE) IN got = [j \in 1..Len(q) |-> q[j].r]
=============================================================================
