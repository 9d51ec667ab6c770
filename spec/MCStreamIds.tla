--------------------------- MODULE MCStreamIds ---------------------------
(* Threads creating streams and opening renumbering scopes, one step of    *)
(* the implementation at a time; or, simulated, sequences of calls.        *)
EXTENDS StreamIds, TLC, Json

CONSTANTS Threads, Types, MaxCreate, MaxScopes, KeepHist, MaxLen
VARIABLES cnt, outer, owner, pc, tmp, scope, given, hist
\* owner: <<thread, depth>> holding the lock; pc: idle, locked (type t being numbered), done
\* scope: numbers of the scopes open, innermost first; given: <<scope, type, number>> in order
vars == <<cnt, outer, owner, pc, tmp, scope, given, hist>>
Free == <<0, 0>>
Log(op) == hist' = IF KeepHist THEN Append(hist, op) ELSE hist
Room == ~KeepHist \/ Len(hist) < MaxLen
MayLock(t) == owner = Free \/ owner[1] = t
Lock(t) == MayLock(t) /\ owner' = <<t, owner[2] + 1>>
Unlock == owner' = IF owner[2] = 1 THEN Free ELSE <<owner[1], owner[2] - 1>>
Now == IF scope = <<>> THEN 0 ELSE scope[1]
Opened == Len(hist)

Init == cnt = Empty /\ outer = <<>> /\ owner = Free /\ pc = [t \in Threads |-> "idle"] /\ tmp = [t \in Threads |-> 0] /\ scope = <<>> /\ given = <<>> /\ hist = <<>>

\* creating a stream: lock, read the last number, write it back and unlock
Begin(t) == \E ty \in Types : pc[t] = "idle" /\ Len(given) < MaxCreate /\ Lock(t) /\ pc' = [pc EXCEPT ![t] = "read"] /\ tmp' = [tmp EXCEPT ![t] = ty] /\ UNCHANGED <<cnt, outer, scope, given, hist>>
Finish(t) == /\ pc[t] = "read" /\ cnt' = Given(cnt, tmp[t]) /\ given' = Append(given, <<Now, tmp[t], Last(cnt, tmp[t]) + 1>>)
             /\ Unlock /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<outer, tmp, scope, hist>>
Enter(t) == /\ pc[t] = "idle" /\ Len(outer) < 2 /\ Lock(t) /\ cnt' = Empty /\ outer' = <<cnt>> \o outer
            /\ LET used == {given[k][1] : k \in 1..Len(given)} \cup {scope[k] : k \in 1..Len(scope)} IN
               \E n \in 1..MaxScopes : n \notin used /\ (\A m \in 1..(n - 1) : m \in used) /\ scope' = <<n>> \o scope
            /\ UNCHANGED <<pc, tmp, given, hist>>
Leave(t) == /\ pc[t] = "idle" /\ outer # <<>> /\ owner[1] = t /\ cnt' = outer[1] /\ outer' = Tail(outer) /\ scope' = Tail(scope) /\ Unlock /\ UNCHANGED <<pc, tmp, given, hist>>
Next == \E t \in Threads : Begin(t) \/ Finish(t) \/ Enter(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars

Of(sc, ty) == SelectSeq(given, LAMBDA g : g[1] = sc /\ g[2] = ty)
Inv == /\ \A sc \in 0..MaxScopes, ty \in Types : LET q == Of(sc, ty) IN \A k \in 1..Len(q) : q[k][3] = k
       /\ \A i, j \in 1..Len(given) : i # j => given[i] # given[j]
       /\ Len(outer) = Len(scope) /\ Len(outer) <= owner[2]

\* --- sequences of calls for the real code: what a thread does alone, what others do meanwhile
\* (the history keeps TLC from drawing once for all, when S is constant)
Pick(S) == {RandomElement(IF hist = <<>> THEN S ELSE S)}
Rare(k) == RandomElement(1..k) = 1
Call == \/ \E ty \in Pick(Types) : cnt' = Given(cnt, ty) /\ Log([op |-> "create", t |-> ty]) /\ UNCHANGED <<outer, scope>>
        \/ /\ Len(outer) < 3 /\ cnt' = Empty /\ outer' = <<cnt>> \o outer /\ scope' = scope /\ Log([op |-> "enter"])
        \/ /\ outer # <<>> /\ cnt' = outer[1] /\ outer' = Tail(outer) /\ scope' = scope /\ Log([op |-> "leave"])
        \/ \E ty \in Pick(Types) : outer # <<>> /\ UNCHANGED <<cnt, outer, scope>> /\ Log([op |-> "other", t |-> ty])
        \/ Rare(3) /\ outer = <<>> /\ UNCHANGED <<cnt, outer, scope>> /\ \E k \in Pick(2..6) : Log([op |-> "race", threads |-> k])
        \/ Rare(12) /\ outer = <<>> /\ cnt' = Empty /\ UNCHANGED <<outer, scope>> /\ Log([op |-> "reset"])
Dump == Len(hist) = MaxLen /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, 0) /\ UNCHANGED <<cnt, outer, scope>>
SimNext == (Dump \/ (Room /\ Call)) /\ UNCHANGED <<owner, pc, tmp, given>>
SimSpec == Init /\ [][SimNext]_vars

\* --- text forms
Codes == {48, 49, 57, 45, 43, 54}
Texts == UNION {[1..n -> Codes] : n \in 0..5}
ASSUME \A sep \in {45, 43} : \A t \in {0, 1, 9, 10, 99, 100, 200, 65535}, n \in {0, 1, 9, 10, 12345, 65535} : Parse(Form(t, n, sep), sep) = <<t, n>>
ASSUME \A s \in Texts : LET p == Parse(s, 45) IN p # None => Value(Digits(p[1])) = p[1] /\ Parse(s, 43) = None /\ Parse(Form(p[1], p[2], 45), 45) = p
=============================================================================
