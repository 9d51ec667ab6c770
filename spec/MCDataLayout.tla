--------------------------- MODULE MCDataLayout ---------------------------
(* Layouts as the implementation stores and maps them: fixed size fields   *)
(* at offsets of one buffer, followed by an index of the variable size     *)
(* fields held in a second buffer; the expected layout's fields are looked *)
(* up from where the previous one was found. Checked against DataLayout.   *)
(* Simulated, it yields sequences of operations for the real code.         *)
EXTENDS DataLayout, TLC, Json, FiniteSets

CONSTANTS Labels, Types, MaxStored, MaxExpected, MaxVar, KeepHist, MaxLen
VARIABLES stored, expected, vals, pc, mem, index, var, map, hist
vars == <<stored, expected, vals, pc, mem, index, var, map, hist>>

F(lab, k, ty, n) == [lab |-> lab, k |-> k, ty |-> ty, n |-> n, req |-> FALSE, def |-> IF k = "s" THEN <<9>> ELSE IF k = "v" THEN <<8>> ELSE IF k = "a" THEN <<7>> ELSE <<6, 6>>]
Universe == {F(l, "v", t, 0) : l \in Labels, t \in Types} \cup {F(l, "a", t, n) : l \in Labels, t \in Types, n \in 1..2} \cup {F(l, "V", t, 0) : l \in Labels, t \in Types} \cup {F(l, "s", 0, 0) : l \in Labels}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE Seqs(n - 1) \cup {Append(s, f) : s \in {s \in Seqs(n - 1) : Len(s) = n - 1}, f \in Universe}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => ~Match(s[i], s[j])

Width(f) == IF f.k = "s" THEN 1 ELSE f.ty                       \* bytes of an element
Size(f) == Width(f) * (IF f.k = "a" THEN f.n ELSE 1)            \* of a fixed size field
\* a value is stored as bytes <<field, element, byte>>; only lengths of variable size fields vary
Bytes(i, f, count) == [b \in 1..(count * Width(f)) |-> <<i, ((b - 1) \div Width(f)) + 1, ((b - 1) % Width(f)) + 1>>]
Count(f, v) == IF f.k = "v" THEN 1 ELSE IF f.k = "a" THEN f.n ELSE v
Fixed(fs) == SelectSeq(fs, LAMBDA f : IsFixed(f))
Var(fs) == SelectSeq(fs, LAMBDA f : ~IsFixed(f))

Init == /\ stored \in {s \in Seqs(MaxStored) : Distinct(s)} /\ expected = <<>> /\ vals = <<>> /\ pc = "write" /\ mem = <<>> /\ index = <<>> /\ var = <<>> /\ map = <<>> /\ hist = <<>>

RECURSIVE Lay(_, _, _), Entries(_, _, _, _), Gather(_, _, _)
Lay(fs, i, off) == IF i > Len(fs) THEN <<>> ELSE <<off>> \o Lay(fs, i + 1, off + Size(fs[i]))   \* offsets of the fixed size fields
Entries(fs, vs, i, off) == IF i > Len(fs) THEN <<>> ELSE <<[off |-> off, len |-> vs[i] * Width(fs[i])]>> \o Entries(fs, vs, i + 1, off + vs[i] * Width(fs[i]))
Gather(fs, vs, i) == IF i > Len(fs) THEN <<>> ELSE Bytes(Len(Fixed(stored)) + i, fs[i], vs[i]) \o Gather(fs, vs, i + 1)
RECURSIVE Cells(_, _)
Cells(fs, i) == IF i > Len(fs) THEN <<>> ELSE Bytes(i, fs[i], Count(fs[i], 0)) \o Cells(fs, i + 1)

Write == /\ pc = "write" /\ vals' \in [1..Len(Var(stored)) -> 0..MaxVar]
         /\ mem' = Cells(Fixed(stored), 1) /\ index' = Entries(Var(stored), vals', 1, 0) /\ var' = Gather(Var(stored), vals', 1)
         /\ pc' = "map" /\ UNCHANGED <<stored, expected, map, hist>>

\* DataLayout::findMatch and mapPieces: positions found, searching from after the last one found
Hit(e, given, from, to) == {i \in from..to : Match(e, given[i])}
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE MapPieces(_, _, _, _)
MapPieces(search, given, k, start) ==
  IF k > Len(search) THEN <<>>
  ELSE LET up == Hit(search[k], given, start, Len(given)) IN
       IF up # {} THEN <<Lowest(up)>> \o MapPieces(search, given, k + 1, Lowest(up) + 1)
       ELSE LET low == Hit(search[k], given, 1, IF start - 1 < Len(given) THEN start - 1 ELSE Len(given)) IN
            IF low # {} THEN <<Lowest(low)>> \o MapPieces(search, given, k + 1, Lowest(low) + 1)
            ELSE <<0>> \o MapPieces(search, given, k + 1, start)
Map == /\ pc = "map" /\ expected' \in {s \in Seqs(MaxExpected) : s # <<>>}
       /\ map' = MapPieces(Fixed(expected'), Fixed(stored), 1, 1) \o MapPieces(Var(expected'), Var(stored), 1, 1)
       /\ pc' = "read" /\ UNCHANGED <<stored, vals, mem, index, var, hist>>
Next == Write \/ Map
Spec == Init /\ [][Next]_vars

\* bytes reading field k of the expected layout gives, or <<>> and FALSE when it is not found
Read(k) == LET e == Order(expected)[k] m == map[k] IN
  IF m = 0 THEN <<FALSE, <<>>>>
  ELSE IF IsFixed(e) THEN <<TRUE, SubSeq(mem, Lay(Fixed(stored), 1, 0)[m] + 1, Lay(Fixed(stored), 1, 0)[m] + Size(e))>>
  ELSE <<TRUE, SubSeq(var, index[m].off + 1, index[m].off + index[m].len)>>
\* what it should give: the bytes of the field of the same label and type
Wanted(k) == LET e == Order(expected)[k] o == Order(stored) i == Found(o, e) IN
  IF i = 0 THEN <<FALSE, <<>>>> ELSE <<TRUE, Bytes(i, o[i], Count(o[i], IF IsFixed(e) THEN 0 ELSE vals[i - Len(Fixed(stored))]))>>
Inv == pc = "read" => \A k \in 1..Len(expected) : Read(k) = Wanted(k)
Sound == pc # "write" => /\ Len(mem) = Len(Cells(Fixed(stored), 1))
                         /\ \A i \in 1..Len(index) : index[i].off + index[i].len <= Len(var)
                         /\ (index # <<>> => index[Len(index)].off + index[Len(index)].len = Len(var))

\* --- sequences of operations: layouts are numbered from 1, records too
\* (the history keeps TLC from drawing once for all, when S is constant)
Pick(S) == {RandomElement(IF hist = <<>> THEN S ELSE S)}
Rare(k) == RandomElement(1..k) = 1
Log(op) == hist' = Append(hist, op)
NL == stored          \* number of layouts so far
NR == vals            \* number of records so far; expected = layout of each record
SimInit == stored = 0 /\ vals = 0 /\ expected = <<>> /\ pc = 0 /\ mem = 0 /\ index = 0 /\ var = 0 /\ map = 0 /\ hist = <<>>
NewLayout == /\ NL < 6 /\ stored' = NL + 1 /\ UNCHANGED <<vals, expected>>
             /\ \E b \in Pick(0..NL) : Log([op |-> "layout", L |-> NL + 1, like |-> b])
NewRec(L, op) == vals' = NR + 1 /\ expected' = Append(expected, L) /\ Log(op)
Act ==
  \/ (NL < 2 \/ Rare(5)) /\ NewLayout
  \/ NL >= 2 /\ \E L \in Pick(1..NL) : NR < 12 /\ UNCHANGED stored /\ NewRec(L, [op |-> "write", L |-> L, R |-> NR + 1])
  \/ NR > 0 /\ \E R \in Pick(1..NR), E \in Pick(1..NL), k \in Pick(1..6) :
       UNCHANGED <<stored, vals, expected>> /\ Log([op |-> CASE k <= 4 -> "read" [] k = 5 -> "copy" [] OTHER -> "find", R |-> R, E |-> E, L |-> expected[R]])
  \/ NL > 0 /\ Rare(2) /\ \E L \in Pick(1..NL) : UNCHANGED <<stored, vals, expected>> /\ Log([op |-> "json", L |-> L])
  \/ NR > 0 /\ NR < 12 /\ \E R \in Pick(1..NR), E \in Pick(1..NL) : UNCHANGED stored /\ NewRec(expected[R], [op |-> "patch", L |-> expected[R], S |-> R, E |-> E, R |-> NR + 1])
  \/ NR > 0 /\ NR < 12 /\ NL < 7 /\ Rare(2) /\ \E R \in Pick(1..NR), E \in Pick(0..NL) :
       stored' = NL + 1 /\ NewRec(NL + 1, [op |-> "edit", L |-> NL + 1, S |-> R, from |-> expected[R], E |-> E, R |-> NR + 1])
Dump == Len(hist) = MaxLen /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, 0) /\ UNCHANGED <<stored, vals, expected>>
SimNext == (Dump \/ (Len(hist) < MaxLen /\ Act)) /\ UNCHANGED <<pc, mem, index, var, map>>
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================
