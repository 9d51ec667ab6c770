------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* What a finished file shows through RecordFileReader.  A file is a list  *)
(* of streams [s, t, inst, fl, tags] and a list of records in creation     *)
(* order [s, ty, ts, id, sz]; the reader presents the records by time, then*)
(* stream, then creation order.  Every lookup is defined by scanning that  *)
(* list (positions from 0; -1: there is none).  Reading a record depends   *)
(* on the record only, and follows the requests of the player: a header    *)
(* request, then pieces, each delivered exactly or refused.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

StreamBefore(F, a, b) ==
  LET x == F.streams[a] y == F.streams[b] IN x.t < y.t \/ (x.t = y.t /\ x.inst < y.inst)

RecBefore(F, a, b) ==
  \/ a.ts < b.ts
  \/ a.ts = b.ts /\ a.s # b.s /\ StreamBefore(F, a.s, b.s)
  \/ a.ts = b.ts /\ a.s = b.s /\ a.ord < b.ord

\* the records as presented
Presented(F) ==
  SortSeq([k \in 1..Len(F.recs) |-> [F.recs[k] EXCEPT !.ord = k]], LAMBDA a, b : RecBefore(F, a, b))

StreamSeq(F) == SortSeq(SetToSeq(DOMAIN F.streams), LAMBDA a, b : StreamBefore(F, a, b))

\* positions, counted from 0, of the records which satisfy P
Where(L, P(_)) == SelectSeq([k \in 1..Len(L) |-> k - 1], LAMBDA k : P(L[k + 1]))
NthOf(q, n) == IF n < Len(q) THEN q[n + 1] ELSE -1
FirstOf(q) == NthOf(q, 0)
LastOf(q) == IF q = <<>> THEN -1 ELSE q[Len(q)]

Nth(L, n) == IF n < Len(L) THEN n ELSE -1
OfStream(L, s) == Where(L, LAMBDA r : r.s = s)
OfType(L, s, ty) == Where(L, LAMBDA r : r.s = s /\ r.ty = ty)
NthInStream(L, s, n) == NthOf(OfStream(L, s), n)
NthOfType(L, s, ty, n) == NthOf(OfType(L, s, ty), n)
LastOfType(L, s, ty) == LastOf(OfType(L, s, ty))

\* 0 stands for any stream or any type
Match(r, s, ty) == (s = 0 \/ r.s = s) /\ (ty = 0 \/ r.ty = ty)
FirstFrom(L, s, ty, ts) == FirstOf(Where(L, LAMBDA r : Match(r, s, ty) /\ r.ts >= ts))

Abs(x) == IF x < 0 THEN -x ELSE x
\* the records which may be given as the nearest one (ties are free); {-1}: there is none
Nearest(L, s, ty, ts, eps) ==
  LET C == {k \in 1..Len(L) : Match(L[k], s, ty) /\ Abs(L[k].ts - ts) <= eps}
      M == {k \in C : \A j \in C : Abs(L[k].ts - ts) <= Abs(L[j].ts - ts)}
  IN IF C = {} THEN {-1} ELSE {k - 1 : k \in M}

\* the position of the record at position n among the records of its stream
InStream(L, n) == Cardinality({k \in 1..(n + 1) : L[k].s = L[n + 1].s}) - 1

DataTime(L, last) ==
  LET d == Where(L, LAMBDA r : r.ty = 3) IN IF d = <<>> THEN <<>> ELSE <<L[(IF last THEN LastOf(d) ELSE d[1]) + 1].ts>>

TagOf(F, s, key) == IF s \in DOMAIN F.streams /\ key \in DOMAIN F.streams[s].tags THEN F.streams[s].tags[key] ELSE ""
FlavorOf(F, s) == IF s \in DOMAIN F.streams THEN F.streams[s].fl ELSE ""

StreamsWhere(F, P(_)) == SelectSeq(StreamSeq(F), LAMBDA s : P(s))
\* 0 stands for any type, "" for any flavor
StreamsOf(F, t, fl) == StreamsWhere(F, LAMBDA s : (t = 0 \/ F.streams[s].t = t) /\ (fl = "" \/ F.streams[s].fl = fl))
StreamForType(F, t, n) == NthOf(StreamsWhere(F, LAMBDA s : F.streams[s].t = t), n)
StreamForFlavor(F, t, fl, n) == NthOf(StreamsWhere(F, LAMBDA s : F.streams[s].t = t /\ F.streams[s].fl = fl), n)
StreamForTag(F, key, val, t) == FirstOf(StreamsWhere(F, LAMBDA s : (t = 0 \/ F.streams[s].t = t) /\ TagOf(F, s, key) = val))

\* the records which have the first configuration of the streams of SS
FirstConfigs(L, SS) == {k \in {NthOfType(L, s, 2, 0) : s \in SS} : k >= 0}

---------------------------------------------------------------------------
(* Reading pieces. A piece asks for n bytes when u are left: all of them,  *)
(* or none and an error.                                                   *)
PieceOk(u, n) == n <= u
RECURSIVE Steps(_, _)
\* what the player sees, for the numbers of bytes asked: <<failed, left>>
Steps(u, ns) ==
  IF ns = <<>> THEN <<>>
  ELSE LET n == Head(ns) IN IF PieceOk(u, n) THEN <<<<n, 0, u - n>>>> \o Steps(u - n, Tail(ns)) ELSE <<<<n, 1, u>>>> \o Steps(u, Tail(ns))
=============================================================================
