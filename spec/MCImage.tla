------------------------------ MODULE MCImage ------------------------------
(* The storage protocol of a recording, its crash points, and the repair of the index.                 *)
(*                                                                                                     *)
(* A writer produces a file in one of three index modes:                                               *)
(*   "end"    header, description, records, then the index, then the header is updated to point at it; *)
(*   "front"  a preliminary index is written before the records (its size is reserved), the header     *)
(*            points past it, and the final index and its position are written at the end;             *)
(*   "split"  header, description and a growing index are in a head file, records in other files; the  *)
(*            index's size and the position of the first record are written at the end.                *)
(* Storage may lose the most recent writes of each file independently (they are buffered), except that *)
(* moving in a file flushes what was written before. A crash leaves some such state, after which the   *)
(* file is read, repaired (the repair may be interrupted too), and read again.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Modes, MaxRecs, MaxCrashes

VARIABLES mode, pc, d, w, crashes, seen, rep
vars == <<mode, pc, d, w, crashes, seen, rep>>

(* d: what storage holds.                                                                              *)
(*   hdr, desc   the header and the description are complete                                           *)
(*   at          where the header says the index is: "none" "front" "end" "split"                       *)
(*   first       the header says where records start                                                   *)
(*   ix          entries in the index record: -1 not complete (yet)                                    *)
(*   sized       (split) the index record's header tells its size                                      *)
(*   n, part     complete records, and whether a part of another one follows them                       *)
(* w: records written by the application, some of them might not be stored yet; wix the split index     *)
Empty == [hdr |-> FALSE, desc |-> FALSE, at |-> "none", first |-> FALSE, ix |-> -1, sized |-> FALSE, n |-> 0, part |-> FALSE]

Init == /\ mode \in Modes /\ pc = "header" /\ d = Empty /\ w = 0 /\ crashes = 0 /\ seen = -1 /\ rep = FALSE

\* ---- the writer
WHeader == /\ pc = "header" /\ d' = [d EXCEPT !.hdr = TRUE] /\ pc' = "desc" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
WDesc == /\ pc = "desc" /\ d' = [d EXCEPT !.desc = TRUE]
         /\ pc' = CASE mode = "end" -> "records" [] mode = "front" -> "reserve" [] mode = "split" -> "index header"
         /\ UNCHANGED <<mode, w, crashes, seen, rep>>
\* the reserved index describes no record: it isn't referenced by the header yet
WReserve == /\ pc = "reserve" /\ d' = [d EXCEPT !.first = TRUE] /\ pc' = "records" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
WIndexHeader == /\ pc = "index header" /\ d' = [d EXCEPT !.at = "split"] /\ pc' = "records" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
WRecord == /\ pc = "records" /\ w < MaxRecs /\ w' = w + 1
           /\ UNCHANGED <<mode, pc, d, crashes, seen, rep>>
\* buffered records reach storage, in order, maybe in part
Store == /\ pc \in {"records", "split index", "split size", "split done"}
         /\ \/ /\ d.n < w /\ ~d.part /\ d' = [d EXCEPT !.part = TRUE]
            \/ /\ d.n < w /\ d' = [d EXCEPT !.part = FALSE, !.n = @ + 1]
         /\ UNCHANGED <<mode, pc, w, crashes, seen, rep>>
Flushed == d.n = w /\ ~d.part
WClose == /\ pc = "records" /\ (mode # "split" => Flushed)
          /\ pc' = CASE mode = "end" -> "end index" [] mode = "front" -> "front index" [] mode = "split" -> "split index"
          /\ UNCHANGED <<mode, d, w, crashes, seen, rep>>
WEndIndex == /\ pc = "end index" /\ d' = [d EXCEPT !.ix = w] /\ pc' = "end header" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
WEndHeader == /\ pc = "end header" /\ d' = [d EXCEPT !.at = "end"] /\ pc' = "done" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
\* the reserved space is used if the index fits, otherwise the index goes at the end
WFrontIndex == /\ pc = "front index"
               /\ d' = [d EXCEPT !.ix = w]
               /\ pc' \in {"front header", "end header"} /\ UNCHANGED <<mode, w, crashes, seen, rep>>
WFrontHeader == /\ pc = "front header" /\ d' = [d EXCEPT !.at = "front"] /\ pc' = "done" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
WSplitIndex == /\ pc = "split index" /\ d' = [d EXCEPT !.ix = w] /\ pc' = "split size" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
WSplitSize == /\ pc = "split size" /\ d' = [d EXCEPT !.sized = TRUE] /\ pc' = "split done" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
WSplitDone == /\ pc = "split done" /\ d' = [d EXCEPT !.first = TRUE] /\ pc' = "split close" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
WSplitClose == /\ pc = "split close" /\ d' = [d EXCEPT !.n = w, !.part = FALSE] /\ pc' = "done" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
Writer == WHeader \/ WDesc \/ WReserve \/ WIndexHeader \/ WRecord \/ Store \/ WClose \/ WEndIndex \/ WEndHeader
          \/ WFrontIndex \/ WFrontHeader \/ WSplitIndex \/ WSplitSize \/ WSplitDone \/ WSplitClose

\* ---- the reader: what a file presents, -1 when it can't be opened
Readable(x) == x.hdr /\ x.desc
HasIndex(x) == CASE x.at \in {"end", "front"} -> x.ix >= 0
                 [] x.at = "split" -> x.ix >= 0 /\ x.sized /\ x.first
                 [] OTHER -> FALSE
Min(a, b) == IF a < b THEN a ELSE b
Present(x) == IF ~Readable(x) THEN -1 ELSE IF HasIndex(x) THEN Min(x.ix, x.n) ELSE x.n

Stopped == {"image", "repair1", "repair2"}
Crash == /\ pc \notin Stopped
         /\ pc' = "image" /\ UNCHANGED <<mode, d, w, crashes, seen, rep>>
Read == /\ pc = "image" /\ seen = -1 /\ Readable(d) /\ seen' = Present(d) /\ UNCHANGED <<mode, pc, d, w, crashes, rep>>
\* ---- the repair of a file without (complete) index, step by step
Repair == /\ pc = "image" /\ seen # -1 /\ ~HasIndex(d) /\ pc' = "repair1" /\ UNCHANGED <<mode, d, w, crashes, seen, rep>>
\* the index replaces what follows the last complete record, or the index in the head
Repair1 == /\ pc = "repair1"
           /\ d' = IF d.at = "split" THEN [d EXCEPT !.ix = d.n] ELSE [d EXCEPT !.ix = d.n, !.part = FALSE]
           /\ pc' = "repair2" /\ UNCHANGED <<mode, w, crashes, seen, rep>>
Repair2 == /\ pc = "repair2"
           /\ \/ /\ d.at # "split" /\ d' = [d EXCEPT !.at = "end"] /\ pc' = "image" /\ rep' = TRUE
              \/ /\ d.at = "split" /\ ~d.first /\ d' = [d EXCEPT !.first = TRUE] /\ UNCHANGED <<pc, rep>>
              \/ /\ d.at = "split" /\ d.first /\ d' = [d EXCEPT !.sized = TRUE] /\ pc' = "image" /\ rep' = TRUE
           /\ UNCHANGED <<mode, w, crashes, seen>>
RepairCrash == /\ pc \in {"repair1", "repair2"} /\ crashes < MaxCrashes
               /\ crashes' = crashes + 1 /\ pc' = "image" /\ UNCHANGED <<mode, d, w, seen, rep>>
Next == Writer \/ Crash \/ Read \/ Repair \/ Repair1 \/ Repair2 \/ RepairCrash
Spec == Init /\ [][Next]_vars /\ WF_vars(Repair1 \/ Repair2) /\ WF_vars(Repair)

\* ---- properties
\* the completely stored records are presented, no others
Kept == Readable(d) => Present(d) = d.n \/ (HasIndex(d) /\ Present(d) = Min(d.ix, d.n))
AllKept == (Readable(d) /\ pc \in Stopped \cup {"done"}) => Present(d) = d.n
Complete == pc = "done" => HasIndex(d) /\ Present(d) = w
\* nothing changes what was seen first, not even a repair stopped half way
Stable == seen # -1 => Present(d) = seen
Repaired == rep => HasIndex(d) /\ Present(d) = seen
RepairEnds == (pc = "repair1") ~> (pc = "image")
Inv == Kept /\ AllKept /\ Complete /\ Stable /\ Repaired
=============================================================================
