------------------------------- MODULE Video -------------------------------
(* Frames of compressed video streams: which frames are given to the       *)
(* decoder when records are read in any order, and how the frames missing  *)
(* to decode the one asked for are caught up with.                         *)
(*                                                                         *)
(* A file is a sequence of records [s, ty, ts, g, ix, short]: a data record *)
(* (ty = 3) holds the frame number ix of the group which key frame is at    *)
(* time g (ix None: it holds no frame), short if the record has fewer bytes than it says.                *)
EXTENDS Integers, Sequences, SequencesExt

DATA == 3
None == -1

NewHandler == [vid |-> FALSE, grp |-> 0, ix |-> None, rg |-> 0, rx |-> None, good |-> FALSE, dec |-> FALSE]
Missing(h) == h.vid /\ ~h.good
Follows(h, r) == r.ix = 0 \/ (h.ix # None /\ r.g = h.grp /\ r.ix = h.ix + 1)
\* frames of the group asked for that are decoded already
Skip(h) == IF h.vid /\ h.grp = h.rg /\ h.ix # None /\ h.ix + 1 < h.rx THEN h.ix + 1 ELSE 0

Call(k, r, ok) == [k |-> k, s |-> r.s, g |-> r.g, ix |-> r.ix, ok |-> ok]

\* One frame is offered. fails: the decoder refuses the frame, or no decoder is found.
Offer(h, r, fails) ==
  LET a == [h EXCEPT !.vid = TRUE, !.rg = r.g, !.rx = r.ix, !.good = Follows(h, r)]
  IN  IF ~Follows(h, r) THEN [h |-> a, log |-> <<>>, rc |-> "sequence", given |-> FALSE]
      ELSE IF r.short THEN [h |-> a, log |-> <<>>, rc |-> "read", given |-> FALSE]
      ELSE [h |-> [a EXCEPT !.grp = r.g, !.ix = IF fails THEN None ELSE r.ix, !.dec = h.dec \/ ~fails],
            log |-> (IF h.dec /\ r.ix = 0 /\ h.grp = r.g THEN <<Call("flush", r, TRUE)>> ELSE <<>>) \o <<Call(IF h.dec THEN "decode" ELSE "make", r, ~fails)>>,
            rc |-> IF ~fails THEN "ok" ELSE IF h.dec THEN "decoder" ELSE "codec",
            given |-> TRUE]

\* what a read of one record does: D = [h, log, tries, n], n frames given to a decoder so far, those in `fails` fail
NoReads(h) == [h |-> h, log |-> <<>>, tries |-> <<>>, n |-> 0]
ReadOne(D, r, fails, api, during) ==
  IF r.ty # DATA \/ r.ix = None THEN D
  ELSE IF api = 3 /\ r.short THEN [D EXCEPT !.tries = Append(@, [s |-> r.s, g |-> r.g, ix |-> r.ix, rc |-> "fail", during |-> during])]
  ELSE LET o == Offer(D.h, r, (D.n + 1) \in fails)
       IN  [h |-> o.h, log |-> D.log \o o.log, n |-> IF o.given THEN D.n + 1 ELSE D.n,
            tries |-> Append(D.tries, [s |-> r.s, g |-> r.g, ix |-> r.ix, rc |-> IF api >= 2 /\ o.rc # "ok" THEN "fail" ELSE o.rc, during |-> during])]

\* the frames of a group asked for, from the key frame on
Frames(F, s, g) == LET d == SelectSeq(F, LAMBDA r : r.s = s /\ r.ty = DATA /\ r.ix # None /\ r.ts >= g)
                   IN  IF d = <<>> THEN <<>> ELSE IF d[1].ts # g THEN <<>> ELSE d

\* Catch up with the frames missing to decode the frame asked for.
CatchUp(D, F, s, exact, fails, api) ==
  LET skip == Skip(D.h)
      all == Frames(F, s, D.h.rg)
      last == IF D.h.rx + 1 < Len(all) THEN D.h.rx + 1 ELSE Len(all)
      first == skip + 1
      upto == IF exact \/ last < first THEN last ELSE first
  IN  IF ~Missing(D.h) \/ D.h.rx = None \/ (~exact /\ skip > 0) THEN [D |-> D, rc |-> 0]
      ELSE IF all = <<>> THEN [D |-> D, rc |-> 1]
      ELSE FoldLeft(LAMBDA acc, i : IF acc.rc # 0 \/ i < first \/ i > upto THEN acc
                                    ELSE LET d == ReadOne(acc.D, all[i], fails, api, TRUE)
                                         IN  [D |-> d, rc |-> IF Missing(d.h) THEN 1 ELSE 0],
                    [D |-> D, rc |-> 0], [i \in 1..Len(all) |-> i])

\* A record is read; catch: 0 no catching up, 1 up to the frame, 2 one frame only.
ReadRecord(h, F, r, catch, fails, api) ==
  LET d == ReadOne(NoReads(h), r, fails, api, FALSE)
  IN  IF catch = 0 THEN [D |-> d, rc |-> 0] ELSE CatchUp(d, F, r.s, catch = 1, fails, api)

\* the decoder is flushed, if there is one, and starts again from a key frame
Reset(h) == [h EXCEPT !.grp = 0, !.ix = None, !.rg = 0, !.rx = None, !.good = FALSE]
\* What a decoder is given, judged from its calls: a frame that isn't a key frame follows the one before it in its group, decoded and not
\* flushed since, and a group already begun is started again only after a flush. begun: group to flush before starting it again.
NewSeen == [g |-> None, ix |-> None, ok |-> FALSE, begun |-> None]
Step(acc, c) ==
  IF c.k = "flush" THEN [acc EXCEPT !.v.begun = None, !.v.ok = FALSE]
  ELSE [v |-> [g |-> c.g, ix |-> c.ix, ok |-> c.ok, begun |-> IF c.k = "make" /\ ~c.ok THEN acc.v.begun ELSE c.g],
        bad |-> acc.bad \/ (c.ix # 0 /\ ~(acc.v.ok /\ acc.v.g = c.g /\ acc.v.ix + 1 = c.ix)) \/ (c.ix = 0 /\ acc.v.begun = c.g)]
Judge(v, log) == FoldLeft(Step, [v |-> v, bad |-> FALSE], log)
Given(log) == SelectSeq(log, LAMBDA c : c.k # "flush")
=============================================================================
