---------------------------- MODULE FileCache ----------------------------
(***************************************************************************)
(* Details of remote files saved in a local cache: the streams, tags and   *)
(* list of records of a file, and whether it has an index. A file opened   *)
(* with its details saved is like the file opened directly; details are    *)
(* saved once a file could be opened, complete or not at all, as they are  *)
(* in the file whatever the order asked for by who opened it.              *)
(***************************************************************************)
EXTENDS Reader

\* by time, stream, then kind of record (configuration, state, data), then as stored
KindRank(ty) == CASE ty = 2 -> 1 [] ty = 1 -> 2 [] OTHER -> ty
KindBefore(F, a, b) ==
  \/ a.ts < b.ts
  \/ a.ts = b.ts /\ a.s # b.s /\ StreamBefore(F, a.s, b.s)
  \/ a.ts = b.ts /\ a.s = b.s /\ KindRank(a.ty) < KindRank(b.ty)
  \/ a.ts = b.ts /\ a.s = b.s /\ a.ty = b.ty /\ a.ord < b.ord
ByKind(F) == SortSeq([k \in 1..Len(F.recs) |-> [F.recs[k] EXCEPT !.ord = k]], LAMBDA a, b : KindBefore(F, a, b))

\* what's in the cache for a file: nothing, details which can't be used, all details, or one of these
Entries == {"none", "bad", "good", "any"}
MayOpen(entry, fast, cut) == IF fast /\ cut THEN (IF entry \in {"good", "any"} THEN {0, 1} ELSE {1}) ELSE {0}
Saved(entry, rc, fault) == IF rc # 0 THEN (IF entry = "bad" THEN "bad" ELSE entry) ELSE IF fault THEN (IF entry = "good" THEN "good" ELSE "any") ELSE "good"
=============================================================================
