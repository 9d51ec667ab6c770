----------------------------- MODULE MCRecorder -----------------------------
(* Explores Recorder with small parameters: design properties checked in    *)
(* every reachable state, and behaviours generated for replay on the real   *)
(* library (hist, printed when it is long enough).                          *)
EXTENDS Recorder, Json

CONSTANTS Streams,      \* e.g. {1, 2}
          Times,        \* e.g. 1..3
          Types,        \* record types created
          MaxLen,       \* operations per behaviour
          MaxRecs,
          MaxFiles,
          Ops,          \* enabled operations
          KeepHist

VARIABLES m, all, gone, req, hist
vars == <<m, all, gone, req, hist>>

IdOf(n) == n
\* when generating behaviours, parameters are picked at random, so that operations are evenly likely
Pick(S) == IF KeepHist /\ S # {} THEN {RandomElement(IF hist = <<>> THEN S ELSE S)} ELSE S
Often(n) == IF KeepHist THEN 1..n ELSE {1}
Log(op) == hist' = IF KeepHist THEN Append(hist, op) ELSE Append(hist, 0)

Base == LET a == NewStream(InitState, 1, 200, 1, "")
            b == IF 2 \in Streams THEN NewStream(a, 2, 201, 1, "") ELSE a
            c == IF 3 \in Streams THEN NewStream(b, 3, 200, 2, "") ELSE b
        IN [c EXCEPT !.streams = [s \in DOMAIN @ |-> [@[s] EXCEPT !.att = (s # 3)]]]
Init == /\ m = Base /\ all = {} /\ gone = {} /\ req = MinTs /\ hist = <<>>

NRecs == m.ord
\* records that left the buffer without being written
Account(mm) ==
  LET written == mm.cur.recs \cup UNION {mm.files[k].recs : k \in 1..Len(mm.files)}
  IN /\ all' = all \cup mm.pend \cup mm.blocked \cup written
     /\ gone' = all' \ (mm.pend \cup mm.blocked \cup written)
Do(mm, op) == m' = mm /\ Account(mm) /\ Log(op)

Create == "create" \in Ops /\ NRecs < MaxRecs /\ UNCHANGED req
  /\ \E w \in Often(5) : \E s \in Pick(Streams), ty \in Pick(Types), t \in Pick(Times) :
       Do(AddRec(m, s, ty, t, IdOf(m.ord + 1)), [op |-> "create", s |-> s, t |-> ty, ts |-> t, id |-> m.ord + 1])
CBegin == "cbegin" \in Ops /\ NRecs < MaxRecs /\ Cardinality(m.blocked) < 2 /\ UNCHANGED req
  /\ \E s \in Pick(Streams), ty \in Pick(Types), t \in Pick(Times) :
       /\ \A r \in m.pend \cup m.blocked : r.s = s => r.ts # t
       /\ Do(CreateBegin(m, s, ty, t, IdOf(m.ord + 1)), [op |-> "cbegin", s |-> s, t |-> ty, ts |-> t, id |-> m.ord + 1])
CEnd == "cbegin" \in Ops /\ UNCHANGED req
  /\ \E r \in Pick(m.blocked) : /\ \A q \in m.pend : (q.s = r.s) => q.ts # r.ts
                          /\ Do(CreateEnd(m, r.id), [op |-> "cend", id |-> r.id])
PurgeA == "purge" \in Ops /\ UNCHANGED req /\ m.pend # {}
  /\ \E t \in Pick(Times \cup {MaxTs}) : Do(Purge(m, t), [op |-> "purge", ts |-> t])
SPurgeA == "spurge" \in Ops /\ UNCHANGED req
  /\ \E s \in Pick(Streams), t \in Pick(Times) : Do([m EXCEPT !.pend = PurgeSet(@, s, t)], [op |-> "spurge", s |-> s, ts |-> t])
Toggle == "active" \in Ops /\ UNCHANGED req
  /\ \E s \in Pick(Streams) : Do([m EXCEPT !.streams[s].act = ~@], [op |-> "active", s |-> s, b |-> ~m.streams[s].act])
AttachA == "attach" \in Ops /\ UNCHANGED req /\ m.mode # "closing"
  /\ \E s \in Pick(Streams) : ~m.streams[s].att /\ Do(Attach(m, s), [op |-> "attach", s |-> s])
OpenA == "open" \in Ops /\ Len(m.files) < MaxFiles /\ req' = (IF m.mode = "idle" THEN MinTs ELSE req)
  /\ Do(Open(m), [op |-> "open"])
WriteA == "write" \in Ops /\ m.mode = "writing"
  /\ \E t \in Pick(Times \cup {MaxTs}) : req' = (IF t > req THEN t ELSE req) /\ Do(Write(m, t), [op |-> "write", ts |-> t])
CloseA == "close" \in Ops /\ m.mode # "idle" /\ req' = MaxTs /\ Do(Close(m), [op |-> "close"])
WaitA == "wait" \in Ops /\ m.mode # "idle" /\ req' = MaxTs /\ Do(Wait(m), [op |-> "wait"])
SyncA == "sync" \in Ops /\ Len(m.files) < MaxFiles /\ m.mode = "idle" /\ m.pend # {} /\ req' = MaxTs /\ Do(Sync(m), [op |-> "sync"])

\* tags: keys and values are small integers, made strings when replayed
FTagA == "ftag" \in Ops /\ m.mode # "closing" /\ UNCHANGED req
  /\ \E k \in Pick(1..3), v \in Pick(1..9) : Do(SetFileTag(m, k, v), [op |-> "ftag", key |-> k, val |-> v])
STagA == "stag" \in Ops /\ UNCHANGED req
  /\ \E w \in Often(2) : \E s \in Pick(Streams), k \in Pick(1..3), v \in Pick(1..9) :
       Do(SetStreamTag(m, s, k, v), [op |-> "stag", s |-> s, key |-> k, val |-> v])
\* automatic writing: what is old enough is collected now and then; automatic purging while no file is written
AutoWA == "autow" \in Ops /\ m.mode = "writing"
  /\ \E t \in Pick(Times) : req' = (IF t > req THEN t ELSE req)
                          /\ Do(Write([m EXCEPT !.auto = t], t), [op |-> "autow", ts |-> t])
AutoCollect == ~KeepHist /\ "autow" \in Ops /\ m.mode = "writing" /\ m.auto # MinTs /\ UNCHANGED req
  /\ Taken(m, m.auto) # {} /\ Do(Write(m, m.auto), [op |-> "autowait"])
AutoPA == "autop" \in Ops /\ m.mode # "closing" /\ UNCHANGED req
  /\ \E t \in Pick(Times) : Do(IF m.mode = "idle" /\ m.autop THEN Purge(m, t) ELSE m, [op |-> "autopset", ts |-> t])
AutoPOn == "autop" \in Ops /\ m.mode # "closing" /\ UNCHANGED req
  /\ \E b \in Pick({~m.autop, TRUE}) : Do([m EXCEPT !.autop = b], [op |-> "autop", on |-> b])

\* a behaviour is printed when it is long enough, or may be once no further file can be made
Exhausted == m.mode = "idle" /\ Len(m.files) = MaxFiles /\ hist # <<>> /\ Len(hist) < MaxLen
Finish == KeepHist /\ (Len(hist) = MaxLen \/ Exhausted) /\ PrintT("HIST " \o ToJson(hist))
  /\ hist' = [i \in 1..(MaxLen + 1) |-> 0] /\ UNCHANGED <<m, all, gone, req>>
Next == Finish \/ (Len(hist) < MaxLen /\
  (Create \/ CBegin \/ CEnd \/ PurgeA \/ SPurgeA \/ Toggle \/ AttachA \/ OpenA \/ WriteA \/ CloseA \/ WaitA \/ SyncA
   \/ FTagA \/ STagA \/ AutoWA \/ AutoCollect \/ AutoPA \/ AutoPOn))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ design properties
Written == m.cur.recs \cup UNION {m.files[k].recs : k \in 1..Len(m.files)}
Newer(a, b) == a.ts > b.ts \/ (a.ts = b.ts /\ a.ord > b.ord)

\* each record is in exactly one place
OnePlace ==
  /\ m.pend \cap m.blocked = {}
  /\ (m.pend \cup m.blocked) \cap Written = {}
  /\ gone \cap (m.pend \cup m.blocked \cup Written) = {}
  /\ \A i, j \in 1..Len(m.files) : i # j => m.files[i].recs \cap m.files[j].recs = {}
  /\ \A k \in 1..Len(m.files) : m.files[k].recs \cap m.cur.recs = {}
\* a configuration or state record only disappears when a more recent one was kept
KeepLatest == \A c \in gone : c.ty \in {TConf, TState} =>
  \E d \in m.pend \cup Written : d.s = c.s /\ d.ty = c.ty /\ Newer(d, c)
\* tags only disappear when the stream, with its current tags, is described in a file created since
Described(s) == s \in DOMAIN m.cur.streams \/ \E k \in 1..Len(m.files) : s \in DOMAIN m.files[k].streams
TagsKept == \A c \in gone : c.ty # TTags \/ Described(c.s)
\* nothing is written before a request covers its time
OnlyRequested == m.mode = "writing" => \A r \in m.cur.recs : r.ts < req
\* once closed, nothing that was in the buffers of active attached streams at that time is left
NoPurgeNoLoss == (Ops \cap {"purge", "spurge", "active"} = {}) => \A c \in gone : c.ty = TTags
Inv == OnePlace /\ KeepLatest /\ TagsKept /\ OnlyRequested /\ NoPurgeNoLoss
\* closing collects everything
CloseCollects == [][(m.mode = "writing" /\ m'.mode # "writing") =>
                     \A r \in m'.pend : ~m.streams[r.s].att \/ ~m.streams[r.s].act]_vars
\* completed files never change
FilesStable == [][\A k \in 1..Len(m.files) : m'.files[k] = m.files[k]]_vars

View == <<m, gone, req, Len(hist)>>
=============================================================================
