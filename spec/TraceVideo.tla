----------------------------- MODULE TraceVideo -----------------------------
(* Conformance of video frame decoding: the calls each decoder received     *)
(* when records of a real file were read.                                   *)
EXTENDS Video, TraceBase

VARIABLES l, F, hs, seen, selecting
vars == <<l, F, hs, seen, selecting>>

Streams == {F[i].s : i \in 1..Len(F)}
Fails(ev) == {ev.fails[i] : i \in 1..Len(ev.fails)}
Catch(ev) == IF (F[ev.n].ty # DATA \/ F[ev.n].ix = None) /\ ~ev.late THEN 0 ELSE ev.catch  \* a record that is declined completes nothing
After(ev) == IF ev.ev = "reset" THEN [s \in Streams |-> IF ev.s = 0 \/ ev.s = s THEN Reset(hs[s]) ELSE hs[s]]
             ELSE [hs EXCEPT ![F[ev.n].s] = ReadRecord(hs[F[ev.n].s], F, F[ev.n], Catch(ev), Fails(ev), ev.api).D.h]
Log(ev, s) == SelectSeq(ev.log, LAMBDA c : c.s = s)
\* a decoder is made for a frame, or given it
Plainly(log) == IF selecting THEN [i \in 1..Len(log) |-> [log[i] EXCEPT !.k = "decode"]] ELSE log
Plain(tries) == [i \in 1..Len(tries) |-> [s |-> tries[i].s, g |-> tries[i].g, ix |-> tries[i].ix, rc |-> tries[i].rc, during |-> tries[i].during]]
State(ev, s) == [s |-> s, missing |-> Missing(After(ev)[s]), rg |-> After(ev)[s].rg, rx |-> After(ev)[s].rx, skip |-> Skip(After(ev)[s])]

Expect(ev) ==
  CASE ev.ev = "open" -> /\ Same("open.rc", ev.rc, 0) /\ Same("open.n", ev.n, Len(F))
    [] ev.ev = "read" -> \A r \in {F[ev.n]} : \A x \in {ReadRecord(hs[r.s], F, r, Catch(ev), Fails(ev), ev.api)} :
         /\ Same("read.calls", Plainly(Given(ev.log)), Plainly(Given(x.D.log)))
         /\ Same("read.tries", Plain(ev.tries), x.D.tries)
         /\ Same("read.data", \A i \in 1..Len(ev.tries) : ev.tries[i].rc # "ok" \/ ev.tries[i].data, TRUE)
         /\ (IF \E i \in 1..Len(ev.tries) : ev.tries[i].rc \notin {"ok", "sequence"} THEN TRUE ELSE Same("read.rc", ev.rc # 0, x.rc # 0))
         /\ Same("read.sequence", [s \in Streams |-> Judge(seen[s], Log(ev, s)).bad], [s \in Streams |-> FALSE])
         /\ Same("read.options", ev.options, TRUE)
         /\ (\A i \in 1..Len(ev.state) : Same("read.state", ev.state[i], State(ev, ev.state[i].s)))
    [] ev.ev = "reset" -> /\ Same("reset.calls", Given(ev.log), <<>>)
                          /\ (\A i \in 1..Len(ev.state) : Same("reset.state", ev.state[i], State(ev, ev.state[i].s)))
    [] OTHER -> TRUE

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \E ev \in {Trace[l]} :
     /\ (IF Expect(ev) THEN TRUE ELSE FALSE)
     /\ selecting' = IF ev.ev = "begin" THEN FALSE ELSE IF ev.ev = "open" THEN Opt(ev, "selecting", FALSE) ELSE selecting
     /\ CASE ev.ev = "begin" -> F' = <<>> /\ hs' = <<>> /\ seen' = <<>>
          [] ev.ev = "rec" -> F' = Append(F, ev.r) /\ UNCHANGED <<hs, seen>>
          [] ev.ev = "open" -> hs' = [s \in Streams |-> NewHandler] /\ seen' = [s \in Streams |-> NewSeen] /\ UNCHANGED F
          [] ev.ev \in {"read", "reset"} -> hs' = After(ev) /\ seen' = [s \in Streams |-> Judge(seen[s], Log(ev, s)).v] /\ UNCHANGED F
          [] OTHER -> UNCHANGED <<F, hs, seen>>
Init == l = 1 /\ F = <<>> /\ hs = <<>> /\ seen = <<>> /\ selecting = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
