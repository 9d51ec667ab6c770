--------------------------- MODULE MCFileCache ---------------------------
(* Design model: readers of one remote file, which may ask for a complete  *)
(* index or for records sorted by kind, and the threads saving its details *)
(* meanwhile; saving may fail or the process stop at any point, and the    *)
(* cache be cut short. In memory, the details are a list read at once and  *)
(* possibly sorted in two steps; on disk, a temporary file written in      *)
(* steps and renamed.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Readers, HasIndex, SaveOnError, JoinFirst
VARIABLES cache,   \* "none", "part", or the order of the list saved
          mem,     \* reader -> "closed", "failed", "file", "half", "kind": its list of records
          save,    \* reader -> what its thread does: "off", "run", "part"
          got,     \* reader -> what the thread saw of the list
          opts     \* reader -> <<fast, sort>>
vars == <<cache, mem, save, got, opts>>
Good == cache = "file"

Init == cache = "none" /\ mem = [r \in Readers |-> "closed"] /\ save = [r \in Readers |-> "off"] /\ got = [r \in Readers |-> {}] /\ opts = [r \in Readers |-> <<FALSE, FALSE>>]
Accepted == cache \notin {"none", "part"}
Open(r) == /\ mem[r] = "closed"
           /\ \E fast, sorted \in BOOLEAN :
                /\ opts' = [opts EXCEPT ![r] = <<fast, sorted>>]
                /\ IF Accepted THEN mem' = [mem EXCEPT ![r] = cache] /\ UNCHANGED save
                   ELSE LET ok == HasIndex \/ ~fast IN
                        /\ mem' = [mem EXCEPT ![r] = IF ok THEN "file" ELSE "failed"]
                        /\ save' = [save EXCEPT ![r] = IF ok \/ SaveOnError THEN "run" ELSE "off"]
           /\ UNCHANGED <<cache, got>>
\* sorting by kind, after opening
Sort(r) == /\ mem[r] \in {"file", "half"} /\ opts[r][2] /\ (JoinFirst => save[r] = "off")
           /\ mem' = [mem EXCEPT ![r] = IF @ = "file" THEN "half" ELSE "kind"] /\ UNCHANGED <<cache, save, got, opts>>
Write(r) == save[r] = "run" /\ save' = [save EXCEPT ![r] = "part"] /\ got' = [got EXCEPT ![r] = {mem[r]}] /\ UNCHANGED <<cache, mem, opts>>
Finish(r) == /\ save[r] = "part" /\ LET seen == got[r] \cup {mem[r]} IN
                  cache' = IF Cardinality(seen) = 1 THEN CHOOSE x \in seen : TRUE ELSE "mixed"
             /\ save' = [save EXCEPT ![r] = "off"] /\ got' = [got EXCEPT ![r] = {}] /\ UNCHANGED <<mem, opts>>
Fail(r) == save[r] \in {"run", "part"} /\ save' = [save EXCEPT ![r] = "off"] /\ got' = [got EXCEPT ![r] = {}] /\ cache' \in {cache, "part"} /\ UNCHANGED <<mem, opts>>
Close(r) == mem[r] # "closed" /\ save[r] = "off" /\ mem' = [mem EXCEPT ![r] = "closed"] /\ UNCHANGED <<cache, save, got, opts>>
Cut == cache # "none" /\ cache' \in {"none", "part"} /\ UNCHANGED <<mem, save, got, opts>>
Stop == mem' = [r \in Readers |-> "closed"] /\ save' = [r \in Readers |-> "off"] /\ got' = [r \in Readers |-> {}] /\ UNCHANGED <<cache, opts>>
Next == Cut \/ Stop \/ \E r \in Readers : Open(r) \/ Sort(r) \/ Write(r) \/ Finish(r) \/ Fail(r) \/ Close(r)
Spec == Init /\ [][Next]_vars
\* details which can be used are those of the file, as they are in the file
Inv == cache \in {"none", "part", "file"} /\ \A r \in Readers : mem[r] \in {"closed", "failed", "file"} \/ opts[r][2]
=============================================================================
