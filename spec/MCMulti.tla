------------------------------ MODULE MCMulti ------------------------------
(***************************************************************************)
(* Design model of opening several files together: identifiers are given   *)
(* to streams file after file, then the indexes are merged with a queue    *)
(* holding the next record of each file. The result is the timeline of the *)
(* merged file, whatever the files.                                        *)
(***************************************************************************)
EXTENDS MultiFile

CONSTANTS MaxFiles, Insts, MaxTs, MaxRecs

VARIABLES Fs, k, left, ids, heads, out
vars == <<Fs, k, left, ids, heads, out>>

Streams(I) == [i \in I |-> [t |-> 1, inst |-> i, fl |-> "", tags |-> <<>>]]
RecsOf(I) == UNION {{[j \in 1..Len(r) |-> [r[j] EXCEPT !.id = j]] : r \in [1..n -> {[s |-> i, ty |-> 3, ts |-> t, id |-> 0, sz |-> 0, ord |-> 0] : i \in I, t \in 0..MaxTs}]} : n \in 0..MaxRecs}
FilesOf == UNION {{[streams |-> Streams(I), recs |-> r] : r \in RecsOf(I)} : I \in (SUBSET Insts) \ {{}}}

Init == /\ Fs \in UNION {[1..n -> FilesOf] : n \in 1..MaxFiles}
        /\ k = 1 /\ left = StreamSeq(Fs[1]) /\ ids = [x \in {} |-> 0] /\ heads = <<>> /\ out = <<>>

\* generateUniqueStreamId
Next1 == /\ k <= Len(Fs)
         /\ IF left = <<>> THEN k' = k + 1 /\ left' = (IF k < Len(Fs) THEN StreamSeq(Fs[k + 1]) ELSE <<>>) /\ ids' = ids
            ELSE LET s == Head(left) U == {ids[d] : d \in DOMAIN ids} IN
                 /\ ids' = [d \in DOMAIN ids \cup {10 * k + s} |-> IF d = 10 * k + s THEN FreeFrom({<<1, u>> : u \in U}, 1, s)[2] ELSE ids[d]]
                 /\ left' = Tail(left) /\ k' = k
         /\ UNCHANGED <<Fs, out>>
         /\ heads' = IF k' > Len(Fs) THEN [j \in 1..Len(Fs) |-> 1] ELSE heads
Ready == k > Len(Fs)
At(j) == Presented(Fs[j])[heads[j]]
Before(i, j) == LET a == At(i) b == At(j) x == ids[10 * i + a.s] y == ids[10 * j + b.s] IN a.ts < b.ts \/ (a.ts = b.ts /\ x < y)
Pop == /\ Ready
       /\ \E i \in 1..Len(Fs) : /\ heads[i] <= Len(Fs[i].recs)
                                /\ \A j \in 1..Len(Fs) : j # i /\ heads[j] <= Len(Fs[j].recs) => Before(i, j)
                                /\ out' = Append(out, [At(i) EXCEPT !.s = 10 * i + @, !.ord = 0])
                                /\ heads' = [heads EXCEPT ![i] = @ + 1]
       /\ UNCHANGED <<Fs, k, left, ids>>
Next == Next1 \/ Pop
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Unique == \A a, b \in DOMAIN ids : a # b => ids[a] # ids[b]
SameIds == Ready => \A d \in DOMAIN ids : UniqueIds(Fs)[d] = <<1, ids[d]>>
\* the records of one file stay in order under the new identifiers: their own order is by their own identifiers
Kept == \A a, b \in DOMAIN ids : a \div 10 = b \div 10 /\ a < b => ids[a] < ids[b]
Merged == Ready => LET Q == Presented(Merge(Fs)) P == [j \in 1..Len(Q) |-> [Q[j] EXCEPT !.ord = 0]] IN Len(out) <= Len(P) /\ out = SubSeq(P, 1, Len(out))
All == Ready /\ ~ENABLED Pop => Len(out) = Len(Presented(Merge(Fs)))
Inv == Unique /\ SameIds /\ Kept /\ Merged /\ All
=============================================================================
