---------------------------- MODULE MCEventChannel ----------------------------
(***************************************************************************)
(* Design model of EventChannel: each action is one critical section of    *)
(* dispatchEvent, waitForEvent or the destructor. Waiters wait a number of *)
(* times; events are sent at any time; a waiter may give up (time out).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Waiters, Events, Waits, Broadcast, EnterSeesEnd
\* EnterSeesEnd: a waiter held at the entrance is let go when the channel is destroyed

VARIABLES sent,        \* events sent so far (the last one is the most recent)
          past,        \* numEventsSinceLastWait_
          pending,     \* pendingWakeupsCount_
          listeners, entering,   \* sets of waiters
          enterSleep, wakeSleep, \* sleepers of the two conditions
          pc, left,    \* where each waiter is; waits left
          due,         \* waiters that were listening at the last dispatch and have not run since (history)
          dying,
          got          \* per waiter, events received
vars == <<sent, past, pending, listeners, entering, enterSleep, wakeSleep, pc, left, due, dying, got>>

Init == /\ sent = 0 /\ past = 0 /\ pending = 0 /\ listeners = {} /\ entering = {} /\ enterSleep = {} /\ wakeSleep = {}
        /\ pc = [w \in Waiters |-> "out"] /\ left = [w \in Waiters |-> Waits] /\ due = {} /\ dying = FALSE /\ got = [w \in Waiters |-> <<>>]

Dispatch ==
  /\ ~dying /\ sent < Events
  /\ sent' = sent + 1
  /\ IF listeners = {} THEN past' = past + 1 /\ UNCHANGED <<pending, wakeSleep, due>>
     ELSE /\ UNCHANGED past
          /\ IF Broadcast THEN pending' = Cardinality(listeners) /\ wakeSleep' = {} /\ due' = listeners
             ELSE /\ pending' = 1 /\ due' = listeners
                  /\ IF wakeSleep = {} THEN wakeSleep' = {} ELSE \E w \in wakeSleep : wakeSleep' = wakeSleep \ {w}
  /\ UNCHANGED <<listeners, entering, enterSleep, pc, left, dying, got>>

\* the part of waitForEvent after the entrance
Listen(w) ==
  /\ past' = 0
  /\ listeners' = listeners \cup {w} /\ wakeSleep' = wakeSleep \cup {w} /\ pc' = [pc EXCEPT ![w] = "listen"]

Enter(w) ==
  /\ pc[w] = "out" /\ left[w] > 0 /\ ~dying
  /\ left' = [left EXCEPT ![w] = @ - 1]
  /\ IF pending > 0
     THEN /\ entering' = entering \cup {w} /\ enterSleep' = enterSleep \cup {w} /\ pc' = [pc EXCEPT ![w] = "enter"]
          /\ UNCHANGED <<past, listeners, wakeSleep>>
     ELSE Listen(w) /\ UNCHANGED <<entering, enterSleep>>
  /\ UNCHANGED <<sent, pending, due, dying, got>>

Entered(w) ==
  /\ pc[w] = "enter" /\ w \notin enterSleep
  /\ IF pending = 0 \/ (EnterSeesEnd /\ dying)
     THEN /\ entering' = entering \ {w}
          /\ IF dying THEN pc' = [pc EXCEPT ![w] = "failed"] /\ UNCHANGED <<past, listeners, wakeSleep>>
             ELSE Listen(w)
          /\ UNCHANGED enterSleep
     ELSE enterSleep' = enterSleep \cup {w} /\ UNCHANGED <<entering, past, listeners, wakeSleep, pc>>
  /\ UNCHANGED <<sent, pending, left, due, dying, got>>

\* a listener runs: notified, spuriously, or at its time limit (`timeout`)
Run(w, timeout) ==
  /\ pc[w] = "listen"
  /\ timeout \/ w \notin wakeSleep
  /\ IF dying THEN /\ listeners' = listeners \ {w} /\ wakeSleep' = wakeSleep \ {w} /\ pc' = [pc EXCEPT ![w] = "failed"]
                   /\ due' = due \ {w} /\ UNCHANGED <<pending, enterSleep, got>>
     ELSE IF pending > 0
     THEN /\ listeners' = listeners \ {w} /\ wakeSleep' = wakeSleep \ {w} /\ pc' = [pc EXCEPT ![w] = "out"]
          /\ pending' = pending - 1 /\ got' = [got EXCEPT ![w] = Append(@, sent)]
          /\ due' = IF Broadcast THEN due \ {w} ELSE {}
          /\ enterSleep' = IF pending = 1 THEN {} ELSE enterSleep
     ELSE IF timeout
     THEN /\ listeners' = listeners \ {w} /\ wakeSleep' = wakeSleep \ {w} /\ pc' = [pc EXCEPT ![w] = "out"]
          /\ due' = due \ {w} /\ UNCHANGED <<pending, enterSleep, got>>
     ELSE wakeSleep' = wakeSleep \cup {w} /\ UNCHANGED <<listeners, pc, pending, enterSleep, got, due>>
  /\ UNCHANGED <<sent, past, entering, left, dying>>

Destroy == /\ ~dying /\ sent = Events
           /\ dying' = TRUE /\ wakeSleep' = {} /\ enterSleep' = {}
           /\ UNCHANGED <<sent, past, pending, listeners, entering, pc, left, due, got>>
Done == dying /\ listeners = {} /\ entering = {} /\ UNCHANGED vars

Next == Dispatch \/ Destroy \/ Done \/ \E w \in Waiters : Enter(w) \/ Entered(w) \/ Run(w, FALSE) \/ Run(w, TRUE)
Fairness == /\ \A w \in Waiters : WF_vars(Entered(w)) /\ WF_vars(Run(w, FALSE))
            /\ WF_vars(Dispatch) /\ WF_vars(Destroy)
Spec == Init /\ [][Next]_vars /\ Fairness
---------------------------------------------------------------------------
\* a wake-up that is pending always has a listener awake to take it
NoLostWakeup == pending > 0 /\ ~dying => \E w \in listeners : w \notin wakeSleep
PendingOk == pending <= Cardinality(listeners) \/ dying
\* those at the entrance are only held while a wake-up is pending
EntranceOpens == (entering \cap enterSleep # {}) /\ ~dying => pending > 0
Order == \A w \in Waiters : \A i, j \in 1..Len(got[w]) : i < j => got[w][i] < got[w][j]
Inv == NoLostWakeup /\ PendingOk /\ EntranceOpens /\ Order
\* whoever was listening when an event was sent stops waiting for it; all leave a destroyed channel
Served == \A w \in Waiters : (Broadcast /\ w \in due) ~> (w \notin due)
SomeServed == (due # {}) ~> (due = {} \/ Broadcast)
AllLeave == dying ~> (listeners = {} /\ entering = {})
=============================================================================
