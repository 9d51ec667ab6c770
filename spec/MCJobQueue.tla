----------------------------- MODULE MCJobQueue -----------------------------
(***************************************************************************)
(* Design model of JobQueue: a deque, a mutex (each action is one critical *)
(* section) and a condition variable with its set of sleepers. Producers   *)
(* send the jobs 1..Jobs in order (each sends any of them next), consumers *)
(* take them until the queue is ended.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Producers, Consumers, PerProducer, NotifyInside
\* NotifyInside: a send notifies while it holds the lock; FALSE loses nothing either, a lost notification does

VARIABLES queue, ended, sent, pc, sleeping, woken, taken
vars == <<queue, ended, sent, pc, sleeping, woken, taken>>

Init == /\ queue = <<>> /\ ended = FALSE /\ sent = [p \in Producers |-> 0]
        /\ pc = [c \in Consumers |-> "try"]      \* try: about to lock and look; sleep; gone
        /\ sleeping = {} /\ woken = {}
        /\ taken = [c \in Consumers |-> <<>>]

NotifyOne(S) == IF S = {} THEN UNCHANGED <<sleeping, woken>>
                ELSE \E c \in S : sleeping' = sleeping \ {c} /\ woken' = woken \cup {c}

Send(p) == /\ sent[p] < PerProducer
           /\ sent' = [sent EXCEPT ![p] = @ + 1]
           /\ queue' = Append(queue, <<p, sent'[p]>>)
           /\ IF NotifyInside THEN NotifyOne(sleeping) ELSE UNCHANGED <<sleeping, woken>>
           /\ UNCHANGED <<ended, pc, taken>>

\* the critical section of a consumer, first time or woken up (also spuriously, or at its time limit)
Look(c) == /\ pc[c] = "try" \/ c \in woken
           /\ woken' = woken \ {c}
           /\ IF ended THEN pc' = [pc EXCEPT ![c] = "gone"] /\ UNCHANGED <<queue, sleeping, taken>>
              ELSE IF queue # <<>> THEN
                /\ taken' = [taken EXCEPT ![c] = Append(@, Head(queue))]
                /\ queue' = Tail(queue)
                /\ pc' = [pc EXCEPT ![c] = "try"]
                /\ UNCHANGED sleeping
              ELSE pc' = [pc EXCEPT ![c] = "sleep"] /\ sleeping' = sleeping \cup {c} /\ UNCHANGED <<queue, taken>>
           /\ UNCHANGED <<ended, sent>>

\* ended once every job was taken
End == /\ ~ended /\ queue = <<>> /\ \A p \in Producers : sent[p] = PerProducer
       /\ ended' = TRUE
       /\ sleeping' = {} /\ woken' = woken \cup sleeping
       /\ UNCHANGED <<queue, sent, pc, taken>>

Done == ended /\ (\A c \in Consumers : pc[c] = "gone") /\ UNCHANGED vars
Next == (\E p \in Producers : Send(p)) \/ (\E c \in Consumers : Look(c)) \/ End \/ Done
Fairness == /\ \A p \in Producers : WF_vars(Send(p))
            /\ \A c \in Consumers : WF_vars(Look(c))
            /\ WF_vars(End)
Spec == Init /\ [][Next]_vars /\ Fairness
---------------------------------------------------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
All == {<<p, k>> : p \in Producers, k \in 1..PerProducer}
Got == UNION {Range(taken[c]) : c \in Consumers}
Once == /\ Got \cap Range(queue) = {}
        /\ \A c, d \in Consumers : c # d => Range(taken[c]) \cap Range(taken[d]) = {}
        /\ \A c \in Consumers : Cardinality(Range(taken[c])) = Len(taken[c])
        /\ Got \cup Range(queue) = {<<p, k>> : p \in Producers, k \in 1..PerProducer} \cap {x \in All : x[2] <= sent[x[1]]}
Ordered == \A c \in Consumers : \A i, j \in 1..Len(taken[c]) : i < j /\ taken[c][i][1] = taken[c][j][1] => taken[c][i][2] < taken[c][j][2]
Inv == Once /\ Ordered
AllGone == <>(\A c \in Consumers : pc[c] = "gone")
=============================================================================
