----------------------------- MODULE MultiFile -----------------------------
(***************************************************************************)
(* Several files read together: one file whose streams are those of all    *)
(* the files, each under an identifier of its own, and whose records are   *)
(* all their records. Stream s of the k-th file is stream 10 * k + s of    *)
(* the whole. Lookups are then those of Reader.                            *)
(***************************************************************************)
EXTENDS Reader

\* first identifier of type t not in U, from instance n on
RECURSIVE FreeFrom(_, _, _)
FreeFrom(U, t, n) == IF <<t, n>> \in U THEN FreeFrom(U, t, n + 1) ELSE <<t, n>>

\* identifiers, given in order of files and streams: a stream keeps its own unless an earlier one has it
RECURSIVE AssignFrom(_, _, _, _)
AssignFrom(Fs, k, ss, done) ==   \* done: 10 * k + s -> <<type, instance>>; ss: streams of file k left
  IF ss = <<>> THEN IF k = Len(Fs) THEN done ELSE AssignFrom(Fs, k + 1, StreamSeq(Fs[k + 1]), done)
  ELSE LET s == Head(ss) x == Fs[k].streams[s] key == 10 * k + s
           U == {done[d] : d \in DOMAIN done}
           id == FreeFrom(U, x.t, x.inst)
       IN AssignFrom(Fs, k, Tail(ss), [d \in DOMAIN done \cup {key} |-> IF d = key THEN id ELSE done[d]])
UniqueIds(Fs) == AssignFrom(Fs, 1, StreamSeq(Fs[1]), [x \in {} |-> <<0, 0>>])

RECURSIVE RecsFrom(_, _)
RecsFrom(Fs, k) == IF k > Len(Fs) THEN <<>> ELSE [j \in 1..Len(Fs[k].recs) |-> [Fs[k].recs[j] EXCEPT !.s = 10 * k + @, !.ord = j]] \o RecsFrom(Fs, k + 1)

Merge(Fs) ==
  LET ids == TLCEval(UniqueIds(Fs)) IN
  [ streams |-> [d \in DOMAIN ids |-> [Fs[d \div 10].streams[d % 10] EXCEPT !.t = ids[d][1], !.inst = ids[d][2]]],
    recs |-> RecsFrom(Fs, 1) ]

\* capture tags (tag -> value, of each file) agree where they are given
Related(tags, keys) ==
  \A key \in keys : \A i, j \in 1..Len(tags) :
    LET v(m) == IF key \in DOMAIN tags[m] THEN tags[m][key] ELSE "" IN v(i) = v(j) \/ v(i) = "" \/ v(j) = ""
\* the value of a tag of the whole: that of the first file which has it
FirstTag(tags, key) ==
  LET K == {i \in 1..Len(tags) : key \in DOMAIN tags[i]} IN IF K = {} THEN "" ELSE tags[CHOOSE i \in K : \A j \in K : i <= j][key]
=============================================================================
