----------------------------- MODULE DataLayout -----------------------------
(* Layouts of typed, labelled fields, and what a record written through    *)
(* one layout shows when read through another.                             *)
(* A field is a record: lab (label), k (kind: value, array, vector, string *)
(* or map), ty (type of elements), n (size of arrays, else 0), req, def,   *)
(* tags, min, max. Every value is a sequence: <<x>> for values and strings,*)
(* the elements for arrays and vectors, <<key, value, key, value ...>> in  *)
(* order of keys for maps; element 0 is the zero of its type and string 0  *)
(* the empty string. def = <<>> when no default was given.                 *)
EXTENDS Naturals, Sequences

FixedKind == {"v", "a"}
IsFixed(f) == f.k \in FixedKind
\* order of the fields of a layout: fixed size fields first
Order(fs) == SelectSeq(fs, LAMBDA f : IsFixed(f)) \o SelectSeq(fs, LAMBDA f : ~IsFixed(f))

\* same label, same kind and type: arrays also have the same size
Match(e, f) == e.lab = f.lab /\ e.k = f.k /\ e.ty = f.ty /\ (e.k # "a" \/ e.n = f.n)
Found(fs, e) == IF \E i \in 1..Len(fs) : Match(e, fs[i]) THEN CHOOSE i \in 1..Len(fs) : Match(e, fs[i]) /\ \A j \in 1..(i - 1) : ~Match(e, fs[j]) ELSE 0

\* arrays get as many elements as declared: the rest is zero
Fit(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
Zeros(n) == [i \in 1..n |-> 0]
\* value of a field never set
Blank(f) == CASE f.k \in {"v", "s"} -> <<0>> [] f.k = "a" -> Zeros(f.n) [] OTHER -> <<>>
\* value of a field absent from the record
Default(f) == IF f.def = <<>> THEN (IF f.k \in {"v", "s"} THEN <<0>> ELSE <<>>) ELSE IF f.k = "a" THEN Fit(f.def, f.n) ELSE f.def
\* value of a field set or staged to v
Stored(f, v) == IF f.k = "a" THEN Fit(v, f.n) ELSE v
\* value of a field initialized to its default
Start(f) == Stored(f, Default(f))

\* what reading field e shows of a record of layout fs holding values vals
View(fs, vals, e) == LET i == Found(fs, e) IN IF i = 0 THEN <<FALSE, Default(e)>> ELSE <<TRUE, vals[i]>>
AllRequired(fs, es) == \A i \in 1..Len(es) : es[i].req => Found(fs, es[i]) # 0
\* fields of layout es copied from a record of layout fs; the others keep what they had
Copied(fs, vals, es, own) == [i \in 1..Len(es) |-> LET j == Found(fs, es[i]) IN IF j = 0 THEN own[i] ELSE Stored(es[i], vals[j])]
CountFound(fs, es) == Len(SelectSeq(es, LAMBDA e : Found(fs, e) # 0))
\* fields of the record of layout fs overwritten by field e
PatchedBy(fs, vals, e, v) == LET i == Found(fs, e) IN IF i = 0 THEN vals ELSE [vals EXCEPT ![i] = Stored(fs[i], v)]
=============================================================================
