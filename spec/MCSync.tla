------------------------------ MODULE MCSync ------------------------------
(* Sequences of calls on one queue or channel: exhaustively with few jobs  *)
(* and workers, or simulated for the real code. A history keeps, beside    *)
(* the calls, what happened to each job.                                   *)
EXTENDS Sync, TLC, Json

CONSTANTS Workers, MaxSends, Kinds, KeepHist, MaxLen
VARIABLES kind, s, n, given, lost, hist
\* n: jobs or events sent; given: jobs handed over, in order of hand over; lost: jobs cancelled or cleared
vars == <<kind, s, n, given, lost, hist>>

Idle == Workers \ s.w
Log(op) == hist' = IF KeepHist THEN Append(hist, op) ELSE hist
Room == ~KeepHist \/ Len(hist) < MaxLen

RECURSIVE Take(_)
Take(D) == IF D = {} THEN <<>> ELSE LET d == CHOOSE x \in D : \A y \in D : x.v = <<>> \/ y.v = <<>> \/ x.v[1] <= y.v[1] IN d.v \o Take(D \ {d})

Q(Outs, op, sends) ==
  /\ kind = "queue" /\ Room
  /\ \E o \in Outs : /\ s' = o.s
                     /\ given' = given \o Take({d \in o.done : d.ok})
                     /\ n' = n + sends
                     /\ lost' = lost \cup ((RangeOf(s.q) \cup {n + i : i \in 1..sends}) \ (RangeOf(o.s.q) \cup UNION {RangeOf(d.v) : d \in o.done}))
  /\ Log(op) /\ UNCHANGED kind
C(Outs, op, sends) ==
  /\ kind # "queue" /\ Room
  /\ \E o \in Outs : s' = o.s
  /\ n' = n + sends
  /\ Log(op) /\ UNCHANGED <<kind, given, lost>>

Hows == {"zero", "short", "long"}
Vs(k) == [i \in 1..k |-> n + i]
\* the calls; K, H, B, ... are the arguments to choose from
Send(K) == \E k \in K : n + k <= MaxSends /\ Q(QSend(s, Vs(k)), [op |-> "send", vs |-> Vs(k)], k)
Wait(H, A) == Idle # {} /\ \E h \in H, a \in A : LET w == CHOOSE x \in Idle : \A y \in Idle : x <= y IN Q(QWait(s, w, h, a), [op |-> "wait", how |-> h, all |-> a], 0)
End(B) == \E b \in B : Q(QEnd(s, b), [op |-> "end", clear |-> b], 0)
Reset == Q(QReset(s), [op |-> "reset"], 0)
Cancel(B) == \E sel \in B : Q(QCancel(s, sel), [op |-> "cancel", sel |-> sel], 0)
Odd(S) == {x \in S : x % 2 = 1}
Sels == {{}, RangeOf(s.q), Odd(RangeOf(s.q)), RangeOf(s.q) \ Odd(RangeOf(s.q)), IF s.q = <<>> THEN {} ELSE {s.q[1]}, IF s.q = <<>> THEN {} ELSE {s.q[Len(s.q)]}}
Nop(B) == \E b \in B : Q(QNothing(s), [op |-> b], 0)

Dispatch == n < MaxSends /\ C(CDispatch(s, n + 1), [op |-> "dispatch", v |-> n + 1], 1)
Burst(K) == \E k \in K : n + k <= MaxSends /\ C(CBurst(s, Vs(k)), [op |-> "burst", vs |-> Vs(k)], k)
CWaits(H, B) == Idle # {} /\ \E h \in H, b \in B : LET w == CHOOSE x \in Idle : \A y \in Idle : x <= y IN
                   C(CWait(s, w, h, b = "yes"), [op |-> "wait", how |-> h, back |-> b], 0)
DispatchWait == n < MaxSends /\ Idle # {} /\ LET w == CHOOSE x \in Idle : \A y \in Idle : x <= y IN C(CDispatchWait(s, w, n + 1), [op |-> "dwait", v |-> n + 1], 1)
Count == C({[s |-> s]}, [op |-> "count"], 0)

Init == /\ kind \in Kinds /\ n = 0 /\ given = <<>> /\ lost = {} /\ hist = <<>>
        /\ s = IF kind = "queue" THEN QInit ELSE CInit(kind = "broadcast")
Next == IF kind = "queue" THEN Send(1..2) \/ Wait(Hows, BOOLEAN) \/ End(BOOLEAN) \/ Reset \/ Cancel(Sels)
        ELSE Dispatch \/ Burst(2..3) \/ CWaits({"zero", "long"}, {"no", "yes"}) \/ DispatchWait
Spec == Init /\ [][Next]_vars

\* (the history keeps TLC from drawing once for all, when S is constant)
Pick(S) == {RandomElement(IF hist = <<>> THEN S ELSE S)}
Rare(k) == RandomElement(1..k) = 1
Dump == Len(hist) = MaxLen /\ PrintT("HIST " \o ToJson([kind |-> kind, workers |-> Cardinality(Workers), ops |-> hist])) /\ hist' = Append(hist, 0) /\ UNCHANGED <<kind, s, n, given, lost>>
SimNext == \/ Dump
           \/ /\ kind = "queue"
              /\ \/ Send({1}) \/ Send(Pick(1..4)) \/ Wait(Pick(Hows), Pick(BOOLEAN)) \/ Wait({"long"}, Pick(BOOLEAN)) \/ Wait({"long"}, Pick(BOOLEAN))
                 \/ (Rare(6) /\ End(Pick(BOOLEAN))) \/ (Rare(4) /\ Reset) \/ Cancel(Pick(Sels)) \/ (Rare(2) /\ Nop(Pick({"wakeall", "size", "cancelnone"})))
           \/ /\ kind # "queue"
              /\ \/ Dispatch \/ (Rare(2) /\ Burst(Pick(2..4))) \/ CWaits(Pick(Hows), Pick({"no", "yes", "old"})) \/ CWaits({"long"}, {"no"}) \/ CWaits({"long"}, {"no"})
                 \/ DispatchWait \/ (Rare(3) /\ Count)
SimSpec == Init /\ [][SimNext]_vars
---------------------------------------------------------------------------
\* every job is pending, handed over once, or cancelled; handed over in the order sent; nobody waits while there is work
Inv == IF kind = "queue"
       THEN /\ QInv(s)
            /\ RangeOf(s.q) \cup RangeOf(given) \cup lost = 1..n
            /\ Cardinality(RangeOf(given)) = Len(given) /\ RangeOf(s.q) \cap (RangeOf(given) \cup lost) = {} /\ RangeOf(given) \cap lost = {}
            /\ \A i, j \in 1..Len(given) : i < j => given[i] < given[j]
            /\ \A i \in 1..Len(s.q), j \in 1..Len(given) : given[j] < s.q[i]
       ELSE CInv(s) /\ s.recent = n /\ s.past <= n
=============================================================================
