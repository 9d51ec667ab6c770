----------------------------- MODULE TraceSync -----------------------------
(* Conformance of JobQueue and EventChannel with Sync.tla.                 *)
EXTENDS Sync, TraceBase, SequencesExt

VARIABLES l, kind, s
vars == <<l, kind, s>>

Outs(ev) ==
  IF kind = "queue" THEN
    CASE ev.op = "send" -> QSend(s, ev.vs)
      [] ev.op = "wait" -> QWait(s, ev.w, ev.how, ev.all)
      [] ev.op = "get0" -> QWait(s, 0, "zero", FALSE)
      [] ev.op = "end" -> QEnd(s, ev.clear)
      [] ev.op = "reset" -> QReset(s)
      [] ev.op = "cancel" -> QCancel(s, RangeOf(ev.sel))
      [] ev.op = "cancelall" -> {[o EXCEPT !.out = <<>>] : o \in QCancel(s, RangeOf(s.q))}
      [] OTHER -> QNothing(s)
  ELSE
    CASE ev.op = "dispatch" -> CDispatch(s, ev.v)
      [] ev.op = "burst" -> CBurst(s, ev.vs)
      [] ev.op = "wait" -> CWait(s, ev.w, ev.how, ev.back = "yes")
      [] ev.op = "dwait" -> CDispatchWait(s, ev.w, ev.v)
      [] ev.op = "destroy" -> CDestroy(s)
      [] OTHER -> {[done |-> {}, s |-> s]}

\* what is seen after the call
Seen(o) == IF kind = "queue" THEN [done |-> o.done, out |-> o.out, size |-> Len(o.s.q), ended |-> o.s.ended, blocked |-> o.s.w]
           ELSE [done |-> o.done, past |-> o.s.past, blocked |-> o.s.w]
Real(ev) == IF kind = "queue" THEN [done |-> {[w |-> d.w, ok |-> d.ok, v |-> d.v] : d \in RangeOf(ev.done)}, out |-> ev.out, size |-> ev.size, ended |-> ev.ended, blocked |-> RangeOf(ev.blocked)]
            ELSE [done |-> {[w |-> d.w, st |-> d.st, v |-> d.v, m |-> d.m] : d \in RangeOf(ev.done)}, past |-> ev.past, blocked |-> RangeOf(ev.blocked)]

Op(ev) ==
  /\ \A d \in RangeOf(ev.done) : Same("sync.time " \o ev.op, d.time, TRUE)
  /\ \E os \in {TLCEval(Outs(ev))} : \E r \in {TLCEval(Real(ev))} :
       LET fit == {o \in os : Seen(o) = r} IN
       /\ IF fit # {} THEN TRUE ELSE Same("sync." \o ev.op, {r}, {Seen(o) : o \in os})
       /\ \E o \in fit : s' = o.s
  /\ UNCHANGED kind

\* threads running freely: producers sent the jobs (or values) 1..n of each; got: what each consumer got, in order
FreeOk(ev) ==
     IF ev.kind = "queue"
     THEN LET all == UNION {{g[i] : i \in 1..Len(g)} : g \in RangeOf(ev.got)}
              total == FoldLeft(LAMBDA a, g : a + Len(g), 0, ev.got)
          IN /\ IF Opt(ev, "part", FALSE) THEN Same("sync.free.some", all \ (1..ev.n * ev.producers), {}) ELSE Same("sync.free.all", all, 1..ev.n * ev.producers)
             /\ Same("sync.free.once", total, Cardinality(all))
             \* job k of producer p is (p - 1) * n + k; the last list may be the jobs cancelled in several sweeps, each in order
             /\ \A c \in 1..(Len(ev.got) - (IF Opt(ev, "sweeps", FALSE) THEN 1 ELSE 0)), p \in 1..ev.producers :
                  LET own == SelectSeq(ev.got[c], LAMBDA x : (x - 1) \div ev.n = p - 1) IN
                  \A i \in 1..(Len(own) - 1) : IF own[i] < own[i + 1] THEN TRUE ELSE Same("sync.free.order", own[i], own[i + 1])
     ELSE LET succ(g) == SelectSeq(g, LAMBDA x : x.st = "success")
              cnt == FoldLeft(LAMBDA a, g : a + Len(succ(g)), 0, ev.got)
              miss == FoldLeft(LAMBDA a, g : FoldLeft(LAMBDA c, x : c + x.m, a, succ(g)), 0, ev.got)
              N == Len(ev.got)
          IN /\ \A c \in 1..N : LET g == succ(ev.got[c]) IN
                  /\ \A i \in 1..Len(g) : Same("sync.free.time", g[i].time, TRUE) /\ (IF g[i].v \in 1..ev.n THEN TRUE ELSE Same("sync.free.value", g[i].v, ev.n))
                  /\ \A i \in 1..(Len(g) - 1) : IF g[i].v < g[i + 1].v THEN TRUE ELSE Same("sync.free.again", g[i].v, g[i + 1].v)
             /\ IF ev.kind = "unicast"
                THEN /\ \A c, d \in 1..N : c < d => LET b == {x.v : x \in RangeOf(succ(ev.got[c]))} \cap {x.v : x \in RangeOf(succ(ev.got[d]))} IN Same("sync.free.shared", b, {})
                     /\ IF cnt + miss + ev.past <= ev.n THEN TRUE ELSE Same("sync.free.count", cnt + miss + ev.past, ev.n)
                ELSE IF miss + ev.past <= ev.n THEN TRUE ELSE Same("sync.free.count", miss + ev.past, ev.n)
Free(ev) == (IF FreeOk(ev) THEN TRUE ELSE FALSE) /\ UNCHANGED <<kind, s>>

Step(ev) ==
  CASE ev.ev = "begin" -> kind' = ev.kind /\ s' = IF ev.kind = "queue" THEN QInit ELSE CInit(ev.kind = "broadcast")
    [] ev.ev = "op" -> Op(ev)
    [] ev.ev = "free" -> Free(ev)
    [] OTHER -> FALSE

Init == l = 1 /\ kind = "none" /\ s = QInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
