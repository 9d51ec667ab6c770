------------------------------ MODULE MCVideo ------------------------------
(* Files built record by record, then any reads and resets. What the       *)
(* decoder of each stream is given is judged on its own, from the calls.   *)
EXTENDS Video, FiniteSets, TLC, Json
CONSTANTS MaxRecs, MaxReads, Streams, FailSets, KeepHist, MaxLen

VARIABLES F, hs, seen, bad, reads, open, hist
vars == <<F, hs, seen, bad, reads, open, hist>>
H(x) == hist' = IF KeepHist THEN Append(hist, x) ELSE hist

Init == F = <<>> /\ hs = [s \in Streams |-> NewHandler] /\ seen = [s \in Streams |-> NewSeen] /\ bad = FALSE /\ reads = 0 /\ open = FALSE /\ hist = <<>>

LastData(s) == LET d == SelectSeq(F, LAMBDA r : r.s = s /\ r.ty = DATA) IN IF d = <<>> THEN <<>> ELSE <<d[Len(d)]>>
\* the next record: next frame of the group, a later one (frames were dropped), a new group, a group which key frame is lost, or not a data record
Nexts(s) ==
  LET ts == Len(F)
      R(ty, g, ix, short) == [s |-> s, ty |-> ty, ts |-> ts, g |-> g, ix |-> ix, short |-> short]
      last == LastData(s)
  IN  {R(ty, None, None, FALSE) : ty \in {1}} \cup {R(DATA, ts, 0, FALSE)} \cup (IF ts > 0 /\ ts < 3 THEN {R(DATA, ts - 1, 1, FALSE)} ELSE {})
      \cup (IF last = <<>> THEN {} ELSE {R(DATA, last[1].g, last[1].ix + 1, b) : b \in BOOLEAN} \cup {R(DATA, last[1].g, last[1].ix + 2, FALSE)})

Rec(r) == /\ ~open /\ Len(F) < MaxRecs /\ F' = Append(F, r) /\ H([op |-> "rec", r |-> r]) /\ UNCHANGED <<hs, seen, bad, reads, open>>
Open == /\ ~open /\ Len(F) > 0 /\ open' = TRUE /\ H([op |-> "open"]) /\ UNCHANGED <<F, hs, seen, bad, reads>>

\* every frame needed is in the file and can be read
Whole(r) == LET f == Frames(F, r.s, r.g) IN Len(f) > r.ix /\ \A i \in 1..(r.ix + 1) : IF i <= Len(f) THEN f[i].g = r.g /\ f[i].ix = i - 1 /\ ~f[i].short ELSE FALSE
\* exactly the frames that miss, in order, up to the one asked for
Exactly(h, r, log) ==
  LET d == SelectSeq(log, LAMBDA c : c.k # "flush")
      from == IF h.ix # None /\ h.grp = r.g /\ h.ix < r.ix THEN h.ix + 1 ELSE 0
  IN  d = [i \in 1..(IF r.ix = 0 THEN 1 ELSE r.ix - from + 1) |-> Call(d[i].k, [s |-> r.s, g |-> r.g, ix |-> (IF r.ix = 0 THEN 0 ELSE from) + i - 1], TRUE)]

Read(k, catch, fails, api) ==
  /\ open /\ reads < MaxReads /\ reads' = reads + 1
  /\ \E r \in {F[k]} : \E x \in {ReadRecord(hs[r.s], F, r, catch, fails, api)} : \E j \in {Judge(seen[r.s], x.D.log)} :
       /\ hs' = [hs EXCEPT ![r.s] = x.D.h]
       /\ seen' = [seen EXCEPT ![r.s] = j.v]
       /\ bad' = (bad \/ j.bad
                  \/ (r.ty = DATA /\ catch = 1 /\ fails = {} /\ Whole(r) /\ ~(x.rc = 0 /\ ~Missing(x.D.h) /\ Exactly(hs[r.s], r, x.D.log)))
                  \/ (r.ty = DATA /\ catch # 1 /\ Len(SelectSeq(x.D.log, LAMBDA c : c.k # "flush")) > 1)
                  \/ (r.ty = DATA /\ catch = 0 /\ (x.D.log = <<>>) # (Missing(x.D.h) \/ r.short)))
       /\ H([op |-> "read", n |-> k, catch |-> catch, fails |-> SetToSeq(fails)])
  /\ UNCHANGED <<F, open>>
ResetOne(s) == /\ open /\ hs' = [hs EXCEPT ![s] = Reset(@)] /\ hs' # hs /\ seen' = [seen EXCEPT ![s].begun = None, ![s].ok = FALSE]
               /\ H([op |-> "reset", s |-> s]) /\ UNCHANGED <<F, bad, reads, open>>
Sets == FailSets
Next == \/ \E s \in Streams : (\E r \in Nexts(s) : Rec(r)) \/ ResetOne(s)
        \/ Open
        \/ \E k \in 1..Len(F), catch \in 0..2, fails \in Sets, api \in {0, 3} : Read(k, catch, fails, api)
Spec == Init /\ [][Next]_vars

\* longer random histories
\* (the history keeps TLC from drawing once for all, when S is constant)
Pick(S) == {RandomElement(IF hist = <<>> THEN S ELSE S)}
SimNext ==
  IF ~open THEN (IF Len(F) = MaxRecs THEN Open ELSE \E c \in Pick(1..12) : \E s \in Pick(Streams) :
      LET last == LastData(s) IN
      \E r \in (IF c <= 6 /\ last # <<>> THEN {[s |-> s, ty |-> DATA, ts |-> Len(F), g |-> last[1].g, ix |-> last[1].ix + 1, short |-> FALSE]} ELSE Pick(Nexts(s))) : Rec(r))
  ELSE \E c \in Pick(1..12) :
      IF c = 1 THEN \E s \in Pick(Streams) : hs' = [hs EXCEPT ![s] = Reset(@)] /\ H([op |-> "reset", s |-> s]) /\ UNCHANGED <<F, seen, bad, reads, open>>
      ELSE \E k \in Pick(1..Len(F)), catch \in Pick({0, 0, 1, 1, 1, 2}), f \in Pick({1, 2, 3, 4, 5, 6}) :
             Read(k, IF c < 8 THEN 1 ELSE catch, IF f = 1 THEN {RandomElement(1..3)} ELSE {}, 0)
SimSpec == Init /\ [][SimNext]_vars
LongEnough == Len(hist) # MaxLen \/ PrintT("HIST " \o ToJson(hist))

Promised == ~bad
=============================================================================
