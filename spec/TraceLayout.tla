---------------------------- MODULE TraceLayout ----------------------------
(* Conformance of data layouts: fields declared, described as text and     *)
(* recreated; records written, read through other layouts, patched, copied *)
(* and edited.                                                             *)
EXTENDS DataLayout, TraceBase, SequencesExt

VARIABLES l, lay, cur, rec
vars == <<l, lay, cur, rec>>
\* lay[L]: fields of layout L in order; cur[L]: values its writer holds; rec[R]: <<layout, values>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* what a layout says about a field
Norm(f) == [lab |-> f.lab, k |-> f.k, ty |-> f.ty, n |-> f.n, req |-> f.req, def |-> Default(f), tags |-> f.tags, props |-> f.props]
Norms(fs) == [i \in 1..Len(fs) |-> Norm(fs[i])]
SameFields(what, got, fs) == \A ok \in {IF Len(got) # Len(fs) THEN Same(what \o ".count", Len(got), Len(fs)) ELSE TRUE} :
  ok /\ \A i \in 1..Len(fs) : Same(what, got[i], Norm(fs[i]))

\* values after a list of assignments <<i, v>>
Set1(fs, vals, s) == [vals EXCEPT ![s.i] = Stored(fs[s.i], s.v)]
Sets(fs, vals, sets) == FoldLeft(LAMBDA acc, s : Set1(fs, acc, s), vals, sets)
Blanks(fs) == [i \in 1..Len(fs) |-> Blank(fs[i])]
Starts(fs) == [i \in 1..Len(fs) |-> Start(fs[i])]

\* a field read as g must be <<found, value>>; mapped: whether it is read through another layout
Shows(what, g, f, view, mapped) ==
  LET v == view[2]
      plain == IF f.k = "a" THEN Fit(v, f.n) ELSE v
      exp == [m |-> mapped /\ view[1], av |-> view[1], ok |-> view[1], v |-> v, w |-> plain]
  IN Same(what \o "." \o f.k, [m |-> g.m, av |-> g.av, ok |-> g.ok, v |-> g.v, w |-> g.w], exp)
AllShow(what, got, fs, views, mapped) ==
  IF Len(got) # Len(fs) THEN Same(what \o ".count", Len(got), Len(fs)) ELSE \A i \in 1..Len(fs) : Shows(what, got[i], fs[i], views[i], mapped)
Held(vals) == [i \in 1..Len(vals) |-> <<TRUE, vals[i]>>]

Written(ev) == LET fs == lay[ev.L] IN Sets(fs, IF ev.init THEN Starts(fs) ELSE cur[ev.L], ev.sets)
Patched(ev) == LET fs == lay[ev.L] es == lay[ev.E] IN FoldLeft(LAMBDA acc, s : PatchedBy(fs, acc, es[s.i], s.v), rec[ev.S][2], ev.sets)
\* fields of an edited copy: those of the original (seen through layout E if not 0), then the additional ones
EditFields(ev) == Order((IF ev.E = 0 THEN lay[rec[ev.S][1]] ELSE lay[ev.E]) \o ev.extra)
EditValue(ev, f) == LET o == IF ev.E = 0 THEN lay[rec[ev.S][1]] ELSE lay[ev.E] IN
  IF Found(o, f) # 0 THEN Stored(f, View(lay[rec[ev.S][1]], rec[ev.S][2], f)[2]) ELSE IF ev.init THEN Start(f) ELSE Blank(f)
Edited(ev) == \* f of the original: its own default decides when it is absent
  LET fs == EditFields(ev) IN Sets(fs, [i \in 1..Len(fs) |-> EditValue(ev, fs[i])], ev.sets)

\* --- the hand written layouts of the driver
Inner(p) == << <<p \o "/x", "v">>, <<p \o "/s", "s">> >>
Middle(p) == << <<p \o "/f", "v">> >> \o Inner(p \o "/in") \o Inner(p \o "/in2") \o << <<p \o "/b", "V">> >>
Autos == <<
  << <<"x", "v">> >> \o Middle("m") \o Inner("arr/0") \o Inner("arr/1") \o Inner("arr/2") \o << <<"y", "v">> >>,
  Inner("in") \o << <<"x", "v">> >> \o Middle("ms/0") \o Middle("ms/1"),
  << <<"s", "s">> >>,
  << <<"x", "v">>, <<"d", "v">>, <<"v", "V">>, <<"y", "v">> >>,
  << <<"x", "v">>, <<"y", "v">> >> >>
AutoLabels(k) == LET fs == Autos[k + 1]
                     o == SelectSeq(fs, LAMBDA f : f[2] = "v") \o SelectSeq(fs, LAMBDA f : f[2] # "v")
                 IN [i \in 1..Len(o) |-> o[i][1]]

Expect(ev) ==
  CASE ev.ev = "layout" -> SameFields("layout.fields", ev.got, Order(ev.fields))
    [] ev.ev = "json" -> /\ SameFields("layout.recreated", ev.got, lay[ev.L])
                         /\ SameFields("layout.clone", ev.clone, lay[ev.L])
                         /\ SameFields("layout.pretty", ev.pretty, lay[ev.L])
                         /\ Same("layout.same", ev.same, TRUE) /\ Same("layout.text", ev.text, TRUE) /\ Same("layout.spec", ev.pieces, TRUE)
    [] ev.ev = "like" -> LET x == Norms(lay[ev.L]) = Norms(lay[ev.E]) IN Same("layout.like", <<ev.same, ev.same2>>, <<x, x>>)
    [] ev.ev = "write" -> /\ Same("layout.set", ev.ok, TRUE) /\ Same("layout.fits", ev.fits, TRUE)
                          /\ \E w \in {TLCEval(Written(ev))} : AllShow("layout.back", ev.back, lay[ev.L], Held(w), FALSE)
    [] ev.ev = "read" ->
         \E fs \in {lay[rec[ev.R][1]]}, es \in {lay[ev.E]} : \E views \in {TLCEval([i \in 1..Len(es) |-> View(fs, rec[ev.R][2], es[i])])} :
           /\ Same("layout.load", <<ev.ok, ev.raw, ev.valid>>, <<TRUE, TRUE, TRUE>>)
           /\ AllShow("layout.read", ev.got, es, views, TRUE)
           /\ AllShow("layout.own", ev.own, fs, Held(rec[ev.R][2]), FALSE)
           /\ Same("layout.required", ev.all, AllRequired(fs, es))
           /\ Same("layout.available", <<ev.nfix, ev.nvar>>, <<CountFound(fs, SelectSeq(es, LAMBDA f : IsFixed(f))), CountFound(fs, SelectSeq(es, LAMBDA f : ~IsFixed(f)))>>)
    [] ev.ev = "find" -> \E es \in {lay[ev.E]} : Same("layout.find", ev.got, [i \in 1..Len(ev.got) |-> Found(es, ev.asked[i])])
    [] ev.ev = "copy" ->
         \E fs \in {lay[rec[ev.R][1]]}, es \in {lay[ev.E]} :
           /\ Same("layout.load", ev.ok, TRUE) /\ Same("layout.copied", ev.count, CountFound(fs, es))
           /\ \E own \in {TLCEval(Sets(es, IF ev.init THEN Starts(es) ELSE Blanks(es), ev.sets))} : AllShow("layout.copy", ev.got, es, Held(Copied(fs, rec[ev.R][2], es, own)), FALSE)
    [] ev.ev = "patch" ->
         /\ Same("layout.load", ev.ok, TRUE)
         /\ Same("layout.patched", ev.done, [i \in 1..Len(ev.sets) |-> IF Found(lay[ev.L], lay[ev.E][ev.sets[i].i]) # 0 THEN 1 ELSE 0])
         /\ \E p \in {TLCEval(Patched(ev))} : AllShow("layout.patch", ev.got, lay[ev.L], Held(p), FALSE)
    [] ev.ev = "edit" ->
         /\ Same("layout.load", <<ev.ok, ev.done>>, <<TRUE, TRUE>>)
         /\ \E fs \in {TLCEval(EditFields(ev))} : SameFields("layout.edited", ev.desc, fs) /\ \E w \in {TLCEval(Edited(ev))} : AllShow("layout.edit", ev.got, fs, Held(w), FALSE)
    [] ev.ev = "auto" -> \A i \in 1..Len(ev.got) : Same("layout.auto", ev.got[i][2], AutoLabels(ev.got[i][1]))
    [] OTHER -> TRUE

Step(ev) ==
  CASE ev.ev = "begin" -> lay' = <<>> /\ cur' = <<>> /\ rec' = <<>>
    [] ev.ev = "layout" -> lay' = Put(lay, ev.L, Order(ev.fields)) /\ cur' = Put(cur, ev.L, Blanks(Order(ev.fields))) /\ UNCHANGED rec
    [] ev.ev = "write" -> \E w \in {TLCEval(Written(ev))} : cur' = Put(cur, ev.L, w) /\ rec' = Put(rec, ev.R, <<ev.L, w>>) /\ UNCHANGED lay
    [] ev.ev = "patch" -> rec' = Put(rec, ev.R, <<ev.L, TLCEval(Patched(ev))>>) /\ UNCHANGED <<lay, cur>>
    [] ev.ev = "edit" -> \E w \in {TLCEval(Edited(ev))} : lay' = Put(lay, ev.L, EditFields(ev)) /\ cur' = Put(cur, ev.L, w) /\ rec' = Put(rec, ev.R, <<ev.L, w>>)
    [] OTHER -> UNCHANGED <<lay, cur, rec>>

Init == l = 1 /\ lay = <<>> /\ cur = <<>> /\ rec = <<>>
Next == l <= Len(Trace) /\ Expect(Trace[l]) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
