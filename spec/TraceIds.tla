------------------------------ MODULE TraceIds ------------------------------
(* Conformance of stream numbering and of the text forms of identifiers.   *)
EXTENDS StreamIds, TraceBase, SequencesExt

VARIABLES l, cnt, outer
vars == <<l, cnt, outer>>

RangeOf(s) == {s[k] : k \in 1..Len(s)}
Plus(c, n) == [t \in DOMAIN c \cup DOMAIN n |-> Last(c, t) + Last(n, t)]

\* calls made by several threads: x = <<thread, scope, type, before, after, number>>
TypesIn(X) == {X[k][3] : k \in 1..Len(X)}
Of(X, sc, t) == SelectSeq(X, LAMBDA x : x[2] = sc /\ x[3] = t)
ByNumber(X) == SortSeq(X, LAMBDA a, b : a[6] < b[6])
\* numbered from base + 1 in an order in which the calls can have happened
RECURSIVE Ordered(_, _, _)
Ordered(q, k, late) == IF k > Len(q) THEN TRUE ELSE IF q[k][5] < late THEN FALSE ELSE Ordered(q, k + 1, IF q[k][4] > late THEN q[k][4] ELSE late)
Numbered(X, base) == \E q \in {TLCEval(ByNumber(X))} : Same("ids.numbers", [k \in 1..Len(q) |-> q[k][6]], [k \in 1..Len(q) |-> base + k]) /\ Same("ids.order", Ordered(q, 1, 0), TRUE)
Race(ev) ==
  /\ \A t \in TypesIn(ev.calls) : Numbered(Of(ev.calls, 0, t), Last(cnt, t))
  /\ \A sc \in RangeOf(ev.scopes) : \A t \in TypesIn(ev.calls) : Numbered(Of(ev.calls, sc[1], t), 0)
  /\ \A sc \in RangeOf(ev.scopes) : \A k \in 1..Len(ev.calls) :   \* sc: <<scope, opened, about to close>>
       LET x == ev.calls[k] IN IF x[2] # sc[1] /\ sc[2] <= x[4] /\ x[5] <= sc[3] THEN Same("ids.scope", x, sc) ELSE TRUE

Expect(ev) ==
  CASE ev.ev = "create" -> Same("ids.create", ev.id, <<ev.t, Last(cnt, ev.t) + 1>>)
    [] ev.ev = "other" -> Same("ids.early", ev.early, FALSE)
    [] ev.ev = "leave" -> /\ Same("ids.early", ev.early, FALSE)
                          /\ \A t \in {ev.got[k][1] : k \in 1..Len(ev.got)} :
                               LET q == SelectSeq(ev.got, LAMBDA g : g[1] = t) IN
                               Same("ids.waited", {q[k][2] : k \in 1..Len(q)}, {Last(outer[1], t) + k : k \in 1..Len(q)})
    [] ev.ev = "race" -> (IF Race(ev) THEN TRUE ELSE FALSE)
    [] ev.ev = "parse" ->
         \A k \in 1..Len(ev.items) :
           LET x == ev.items[k] p == Parse(x[1], IF ev.plus THEN 43 ELSE 45) IN
           IF p = None THEN (IF x[2] = 65535 /\ x[3] = 0 THEN TRUE ELSE Same("ids.refuse", x, None))
           ELSE IF <<x[2], x[3]>> = p THEN TRUE ELSE Same("ids.parse", x, p)
    [] ev.ev = "form" ->
         \A k \in 1..Len(ev.items) :
           LET x == ev.items[k] IN
           /\ IF x[3] = Form(x[1], x[2], 45) THEN TRUE ELSE Same("ids.form", x, Form(x[1], x[2], 45))
           /\ IF <<x[4], x[5]>> = <<x[1], x[2]>> THEN TRUE ELSE Same("ids.back", x, <<x[1], x[2]>>)
    [] ev.ev = "less" -> \A k \in 1..Len(ev.items) : LET x == ev.items[k] a == <<x[1], x[2]>> b == <<x[3], x[4]>> IN
                           IF <<x[5], x[6], x[7]>> = <<IF Less(a, b) THEN 1 ELSE 0, IF a = b THEN 1 ELSE 0, IF x[1] # 65535 THEN 1 ELSE 0>> THEN TRUE ELSE Same("ids.less", x, "the order of types then numbers")
    [] OTHER -> TRUE

CountOf(X) == [t \in TypesIn(X) |-> Cardinality({k \in 1..Len(X) : X[k][3] = t})]
Step(ev) ==
  CASE ev.ev = "begin" -> cnt' = Empty /\ outer' = <<>>
    [] ev.ev = "reset" -> cnt' = Empty /\ UNCHANGED outer
    [] ev.ev = "create" -> cnt' = Given(cnt, ev.t) /\ UNCHANGED outer
    [] ev.ev = "enter" -> cnt' = Empty /\ outer' = <<cnt>> \o outer
    [] ev.ev = "leave" -> /\ cnt' = Plus(outer[1], [t \in {ev.got[k][1] : k \in 1..Len(ev.got)} |-> Cardinality({k \in 1..Len(ev.got) : ev.got[k][1] = t})])
                          /\ outer' = Tail(outer)
    [] ev.ev = "race" -> cnt' = Plus(cnt, CountOf(SelectSeq(ev.calls, LAMBDA x : x[2] = 0))) /\ UNCHANGED outer
    [] OTHER -> UNCHANGED <<cnt, outer>>

Init == l = 1 /\ cnt = Empty /\ outer = <<>>
Next == l <= Len(Trace) /\ Expect(Trace[l]) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
