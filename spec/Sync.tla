------------------------------- MODULE Sync -------------------------------
(***************************************************************************)
(* What job queues and event channels do, seen when nothing moves any more *)
(* after each call: for a state and a call, the set of the possible        *)
(* outcomes, each with the waiters that return, what they get, and the     *)
(* state after it.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}
InjOf(n, S) == {f \in [1..n -> S] : \A i, j \in 1..n : i # j => f[i] # f[j]}
MinOf(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
(* A job queue: jobs pending, in order; whether it was ended; workers      *)
(* waiting.                                                                *)
QInit == [q |-> <<>>, ended |-> FALSE, w |-> {}]
Ret(w, ok, v) == [w |-> w, ok |-> ok, v |-> v]

\* jobs sent without a pause: every one for which there is a waiter goes to one, the first jobs first
QSend(s, vs) ==
  LET k == MinOf(Len(vs), Cardinality(s.w)) IN
  {[done |-> {Ret(f[i], TRUE, <<vs[i]>>) : i \in 1..k}, out |-> <<>>,
    s |-> [s EXCEPT !.q = @ \o SubSeq(vs, k + 1, Len(vs)), !.w = @ \ {f[i] : i \in 1..k}]] : f \in InjOf(k, s.w)}

\* one worker asks: how is "zero" (now), "short" (gives up), "long" (may block); all: for all the jobs
QWait(s, w, how, all) ==
  IF s.q # <<>> /\ (~s.ended \/ all \/ how = "zero")
  THEN {[done |-> {Ret(w, TRUE, IF all THEN s.q ELSE <<Head(s.q)>>)}, out |-> <<>>, s |-> [s EXCEPT !.q = IF all THEN <<>> ELSE Tail(s.q)]]}
  ELSE IF s.ended \/ how # "long" THEN {[done |-> {Ret(w, FALSE, <<>>)}, out |-> <<>>, s |-> s]}
  ELSE {[done |-> {}, out |-> <<>>, s |-> [s EXCEPT !.w = @ \cup {w}]]}

QEnd(s, clear) ==
  {[done |-> {Ret(w, FALSE, <<>>) : w \in s.w}, out |-> <<>>, s |-> [q |-> IF clear THEN <<>> ELSE s.q, ended |-> TRUE, w |-> {}]]}
QReset(s) == {[done |-> {}, out |-> <<>>, s |-> [s EXCEPT !.q = <<>>, !.ended = FALSE]]}
QCancel(s, sel) ==
  LET in(v) == v \in sel notin(v) == v \notin sel IN
  {[done |-> {}, out |-> SelectSeq(s.q, in), s |-> [s EXCEPT !.q = SelectSeq(@, notin)]]}
QNothing(s) == {[done |-> {}, out |-> <<>>, s |-> s]}
QInv(s) == s.w # {} => s.q = <<>> /\ ~s.ended

---------------------------------------------------------------------------
(* An event channel: events sent while nobody waited since the last wait;  *)
(* the last value sent; the workers waiting, with the number of events     *)
(* each found to have been missed.                                         *)
CInit(bc) == [bc |-> bc, past |-> 0, recent |-> 0, w |-> {}, miss |-> [x \in {} |-> 0]]
Got(w, st, v, m) == [w |-> w, st |-> st, v |-> v, m |-> m]
Leave(s, W) == [s EXCEPT !.w = @ \ W, !.miss = [x \in s.w \ W |-> s.miss[x]]]

CDispatch(s, v) ==
  IF s.w = {} THEN {[done |-> {}, s |-> [s EXCEPT !.past = @ + 1, !.recent = v]]}
  ELSE LET Ws == IF s.bc THEN {s.w} ELSE {{x} : x \in s.w} IN
       {[done |-> {Got(x, "success", v, s.miss[x]) : x \in W}, s |-> [Leave(s, W) EXCEPT !.recent = v]] : W \in Ws}

\* back: whether the last event is recent enough to count
CWait(s, w, how, back) ==
  IF back /\ s.past > 0 THEN {[done |-> {Got(w, "success", s.recent, s.past - 1)}, s |-> [s EXCEPT !.past = 0]]}
  ELSE IF how = "long" THEN {[done |-> {}, s |-> [s EXCEPT !.past = 0, !.w = @ \cup {w}, !.miss = [x \in s.w \cup {w} |-> IF x = w THEN s.past ELSE s.miss[x]]]]}
  ELSE {[done |-> {Got(w, "timeout", 0, 0)}, s |-> [s EXCEPT !.past = 0]]}

\* a worker sends an event and waits right away: the event is for those who were waiting
CDispatchWait(s, w, v) == UNION {{[done |-> o.done \cup p.done, s |-> p.s] : p \in CWait(o.s, w, "long", FALSE)} : o \in CDispatch(s, v)}

\* events sent without a pause may be merged: those who run late see the last one. In broadcast all the waiters return,
\* otherwise one at least, and no two of them with the same event
CBurst(s, vs) ==
  LET k == Len(vs)
      At(f, W) == {Got(x, "success", vs[f[x]], s.miss[x]) : x \in W}
      Ws == IF s.bc THEN {s.w} ELSE {W \in SUBSET s.w : W # {} /\ Cardinality(W) <= k}
      last(f, W) == CHOOSE i \in 0..k : (\A x \in W : f[x] <= i) /\ (i = 0 \/ \E x \in W : f[x] = i)
  IN IF s.w = {} THEN {[done |-> {}, s |-> [s EXCEPT !.past = @ + k, !.recent = vs[k]]]}
     ELSE UNION {UNION {{[done |-> At(f, W), s |-> [Leave(s, W) EXCEPT !.recent = vs[k], !.past = p]]
                           : p \in IF W = s.w THEN 0..(k - last(f, W)) ELSE {0}}
                          : f \in {g \in [W -> 1..k] : s.bc \/ \A x, y \in W : x # y => g[x] # g[y]}} : W \in Ws}

CDestroy(s) == {[done |-> {Got(w, "failure", 0, 0) : w \in s.w}, s |-> Leave(s, s.w)]}
CInv(s) == (s.w = DOMAIN s.miss) /\ s.past >= 0
=============================================================================
