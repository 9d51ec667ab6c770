-------------------------- MODULE TraceDescribe --------------------------
(* Conformance of description records.                                     *)
EXTENDS Describe, TraceBase

VARIABLES l, serials  \* the serial numbers given: <<what the stream is, its number>>
vars == <<l, serials>>

In(s) == [t |-> s.t, i |-> s.i, user |-> s.user, name |-> s.name, flavor |-> s.flavor, other |-> s.other, serial |-> s.serial]
Q(ev) == Sorted([k \in 1..Len(ev.streams) |-> In(ev.streams[k])])
Given(ev, q) == {k \in 1..Len(q) : Serial(ev.ver, q[k]) = <<>>}
New(ev) ==
  LET q == TLCEval(Q(ev)) IN
  {<<TLCEval(Essence(ev.ver, ev.tags, q, k)), ev.got[k].serial[1]>> : k \in Given(ev, q)}

Expect(ev) ==
  LET q == TLCEval(Q(ev)) IN
  /\ Same("desc.types", [k \in 1..Len(ev.streams) |-> Type(ev.streams[k].rt)], [k \in 1..Len(ev.streams) |-> ev.streams[k].t])
  /\ IF "wrc" \in DOMAIN ev THEN Same("desc.written", <<ev.wrc, ev.wsize, ev.wbytes>>, <<0, TRUE, TRUE>>) ELSE TRUE
  /\ IF ev.eof > 0 THEN Same("desc.short", ev.rc, FALSE)
     ELSE /\ Same("desc.read", ev.rc, TRUE)
          /\ Same("desc.size", <<ev.size, ev.pos>>, <<TRUE, TRUE>>)
          /\ Same("desc.file", ev.file, ev.tags)
          /\ Same("desc.streams", [k \in 1..Len(ev.got) |-> [t |-> ev.got[k].t, i |-> ev.got[k].i, user |-> ev.got[k].user, name |-> ev.got[k].name, flavor |-> ev.got[k].flavor, other |-> ev.got[k].other]],
                  [k \in 1..Len(q) |-> Stream(ev.ver, q[k])])
          /\ \A k \in 1..Len(q) :
               /\ Same("desc.rest", ev.got[k].rest, <<>>)
               /\ IF Serial(ev.ver, q[k]) = <<>> THEN Same("desc.numbered", ev.got[k].serial # <<>> /\ ev.got[k].serial # <<<<>>>>, TRUE)
                  ELSE Same("desc.serial", ev.got[k].serial, <<Serial(ev.ver, q[k])>>)
          /\ LET all == TLCEval(serials \cup New(ev)) IN
             \A x, y \in all :
               IF (x[1] = y[1]) = (x[2] = y[2]) THEN TRUE
               ELSE Same("desc.numbers", <<x, y>>, "the same number for the same stream only")

Init == l = 1 /\ serials = {}
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l] IN
           IF ev.ev = "desc" THEN /\ Expect(ev)
                                  /\ serials' = (IF ev.eof > 0 THEN serials ELSE serials \cup New(ev))
           ELSE serials' = {}
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
