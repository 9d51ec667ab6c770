------------------------------- MODULE MCCopy -------------------------------
(***************************************************************************)
(* Design model of filtered reading and copying: the steps that the code   *)
(* takes (binary search of the first record, backward search of the        *)
(* configuration and state in force, forward scan) visit what Copy         *)
(* defines, copying a copy changes nothing, and a file cut in two by time  *)
(* and merged again is the same file.                                      *)
(***************************************************************************)
EXTENDS Copy, Json

CONSTANTS MaxRecs, Times, KeepHist, MaxLen
VARIABLES file,   \* a file
          sel,    \* a selection of it
          out,    \* the copy made, <<>> before
          hist
vars == <<file, sel, out, hist>>

Streams == 2
Types == {State, Config, Data}

\* a file whose records are in order
Before(a, b) == a.ts < b.ts \/ (a.ts = b.ts /\ a.k <= b.k)
RecSet == {[k |-> k, ty |-> ty, ts |-> ts, c |-> 0] : k \in 1..Streams, ty \in Types \ {State}, ts \in Times}
Files == LET Q(n) == {q \in [1..n -> RecSet] : \A i \in 1..(n - 1) : Before(q[i], q[i + 1])}
         IN {[ft |-> <<>>, streams |-> <<[t |-> 1, inst |-> 3, fl |-> "", tags |-> <<>>, vrs |-> <<>>], [t |-> t2, inst |-> 4, fl |-> "", tags |-> <<>>, vrs |-> <<>>]>>,
              recs |-> [i \in 1..Len(q) |-> [q[i] EXCEPT !.c = i]]] : q \in UNION {Q(n) : n \in 0..MaxRecs}, t2 \in {1, 2}}

\* the code: first record at or after lo, by bisection
RECURSIVE Bisect(_, _, _, _)
Bisect(F, lo, a, b) == IF a >= b THEN a ELSE LET m == (a + b) \div 2 IN IF F.recs[m].ts < lo THEN Bisect(F, lo, m + 1, b) ELSE Bisect(F, lo, a, m)
First(F, lo) == Bisect(F, lo, 1, Len(F.recs) + 1)
RECURSIVE Back(_, _, _, _, _)
Back(F, s, i, found, need) ==
  IF need = 0 \/ i = 0 THEN <<>>
  ELSE LET r == F.recs[i] IN
       IF r.ty \in {Config, State} /\ r.ty \in s.T /\ r.k \in s.S /\ <<r.k, r.ty>> \notin found
       THEN Back(F, s, i - 1, found \cup {<<r.k, r.ty>>}, need - 1) \o <<i>>
       ELSE Back(F, s, i - 1, found, need)
RECURSIVE Fwd(_, _, _, _, _)
Fwd(F, s, i, found, cursors) == \* cursors: <<stream, time of the last data record kept>>
  IF i > Len(F.recs) \/ (i <= Len(F.recs) /\ F.recs[i].ts > s.lh[2]) THEN <<>>
  ELSE LET r == F.recs[i] IN
       IF r.k \notin s.S \/ r.ty \notin s.T THEN Fwd(F, s, i + 1, found, cursors)
       ELSE IF s.first /\ <<r.k, r.ty>> \in found THEN Fwd(F, s, i + 1, found, cursors)
       ELSE IF r.ty = Data /\ \E c \in cursors : c[1] = r.k /\ r.ts < c[2] + Interval(s.dec, r.k)
            THEN Fwd(F, s, i + 1, found \cup {<<r.k, r.ty>>}, cursors)
       ELSE <<i>> \o Fwd(F, s, i + 1, found \cup {<<r.k, r.ty>>}, IF r.ty = Data THEN {c \in cursors : c[1] # r.k} \cup {<<r.k, r.ts>>} ELSE cursors)
Steps(F, s) ==
  IF F.recs # <<>> /\ s.lh[1] > s.lh[2] THEN <<>>
  ELSE (IF s.lh[1] = NInf \/ First(F, s.lh[1]) > Len(F.recs) THEN <<>> ELSE Back(F, s, First(F, s.lh[1]) - 1, {}, 2 * Cardinality(s.S)))
       \o Fwd(F, s, First(F, s.lh[1]), {}, {})

CopyOf(F, s) == [ft |-> F.ft, streams |-> CopyStreams(F, s.S), recs |-> CopyRecs(F, s)]

Decs == {<<<<{1}, 2>>>>, <<<<{1, 2}, 1>>, <<{2}, 2>>>>}
Sels(F) == {[S |-> S, T |-> T, lh |-> <<lo, hi>>, first |-> f, dec |-> <<>>] :
              S \in SUBSET (1..Len(F.streams)), T \in {Types, {Data}, {Config, Data}}, lo \in Times \cup {NInf, PInf}, hi \in Times \cup {PInf}, f \in BOOLEAN}
           \cup {[S |-> 1..Len(F.streams), T |-> T, lh |-> <<lo, PInf>>, first |-> f, dec |-> d] : T \in {Types, {Data}}, lo \in Times \cup {NInf}, f \in BOOLEAN, d \in Decs}

Init == /\ IF KeepHist THEN file = [ft |-> <<>>, streams |-> <<>>, recs |-> <<>>] ELSE file \in Files
        /\ sel = All(file) /\ out = <<>> /\ hist = <<>>
Copy1 == /\ ~KeepHist /\ out = <<>>
         /\ sel' \in Sels(file)
         /\ out' = <<CopyOf(file, sel')>>
         /\ UNCHANGED <<file, hist>>

\* simulation: what is asked, in which order
Log(o) == hist' = Append(hist, o) /\ UNCHANGED <<file, sel, out>>
Slots == 1..5
\* (the history keeps TLC from drawing once for all, when S is constant)
Pick(S) == {RandomElement(IF hist = <<>> THEN S ELSE S)}
Dump == Len(hist) = MaxLen /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, 0) /\ UNCHANGED <<file, sel, out>>
SimNext == \/ Dump
           \/ /\ Len(hist) < MaxLen
              /\ \/ \E f \in Pick(Slots) : Log([op |-> "make", f |-> f])
                 \/ \E f \in Pick(Slots), g \in Pick(Slots) : Log([op |-> "copy", f |-> f, g |-> g])
                 \/ \E f \in Pick(Slots), g \in Pick(Slots) : Log([op |-> "cmp", f |-> f, g |-> g])
                 \/ \E f \in Pick(Slots) : Log([op |-> "sum", f |-> f])
                 \/ \E f \in Pick(Slots) : Log([op |-> "iterate", f |-> f])
                 \/ \E q \in Pick([1..2 -> Slots] \cup [1..3 -> Slots] \cup [1..1 -> Slots]), g \in Pick(Slots) : Log([op |-> "merge", fs |-> q, g |-> g])
SimSpec == Init /\ [][SimNext]_vars
Spec == Init /\ [][Copy1]_vars

---------------------------------------------------------------------------
Agree == out # <<>> => Steps(file, sel) = Visits(file, sel)
\* decimated streams: what is kept is far enough apart, what is dropped comes too soon after something kept
Spaced == (out # <<>> /\ sel.dec # <<>> /\ ~sel.first) =>
  LET v == Visits(file, sel)
      D(k) == {i \in 1..Len(v) : file.recs[v[i]].k = k /\ file.recs[v[i]].ty = Data}
      b == Body(file, sel.S, sel.T, sel.lh, FALSE)
  IN \A k \in 1..Len(file.streams) :
       LET iv == Interval(sel.dec, k) IN
       /\ \A i, j \in D(k) : i < j => file.recs[v[j]].ts - file.recs[v[i]].ts >= iv
       /\ \A x \in b \ Range(v) : file.recs[x].k = k => file.recs[x].ty = Data /\ \E i \in D(k) : v[i] < x /\ file.recs[x].ts < file.recs[v[i]].ts + iv
Again == out # <<>> =>
  LET G == out[1] IN
  /\ Essence(G, All(G)) = Essence(file, sel)
  \* the same range keeps everything, if it isn't empty
  /\ ~sel.first /\ sel.dec = <<>> /\ (\E i \in 1..Len(G.recs) : G.recs[i].ts >= sel.lh[1]) => Visits(G, [All(G) EXCEPT !.lh = sel.lh]) = [i \in 1..Len(G.recs) |-> i]
\* cut at a time, then merged by stream
NoDup == \A i, j \in 1..Len(file.recs) : <<file.recs[i].k, file.recs[i].ty, file.recs[i].ts>> = <<file.recs[j].k, file.recs[j].ty, file.recs[j].ts>> => i = j
CutMerge == out = <<>> /\ NoDup => \A m \in Times :
  LET a == CopyOf(file, [All(file) EXCEPT !.lh = <<NInf, m - 1>>])
      b == CopyOf(file, [All(file) EXCEPT !.lh = <<m, PInf>>])
      Fs == <<a, b>>
      ss == <<All(a), All(b)>>
      o == MergedStreams(<<>>, Fs, ss, 1, TRUE)
  IN /\ Len(o) = Len(file.streams)
     /\ \A k \in 1..Len(o) : Candidates(Fs, ss, o[k]) = {[file.recs[i] EXCEPT !.k = 0] : i \in {j \in 1..Len(file.recs) : file.recs[j].k = k}}
\* merging tags loses no value and changes none that was there
TagLists == {<<>>, <<<<"a", "1">>>>, <<<<"a", "2">>>>, <<<<"a", "1">>, <<"a_merged", "2">>>>, <<<<"a", "3">>, <<"b", "1">>>>, <<<<"a_merged", "1">>, <<"a_merged-1", "3">>>>}
Tags == \A x, y, z \in TagLists :
  LET m == MergeTags(MergeTags(x, y, FALSE), z, FALSE) IN
  /\ SubSeq(m, 1, Len(x)) = x
  /\ \A i, j \in 1..Len(m) : m[i][1] = m[j][1] => i = j
  /\ {q[2] : q \in Range(x \o y \o z)} \subseteq {q[2] : q \in Range(m)}
Inv == Spaced /\ Agree /\ Again /\ CutMerge
ASSUME Tags
=============================================================================
