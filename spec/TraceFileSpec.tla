--------------------------- MODULE TraceFileSpec ---------------------------
(* Conformance of file specifications: what the real code made of strings,  *)
(* fields and json, and who was asked to open files.                        *)
EXTENDS FileSpec, TraceBase

VARIABLES l, reg
vars == <<l, reg>>

Sp(x) == [fh |-> x.fh, fn |-> x.fn, uri |-> x.uri, chunks |-> x.chunks, sizes |-> x.sizes, extras |-> {<<x.extras[i][1], x.extras[i][2]>> : i \in 1..Len(x.extras)}]
AlNum(c) == Alpha(c) \/ Digit(c) \/ c \in {46, 45, 95}
Loc(sp) ==
  IF sp.uri = <<>> \/ IsDisk(sp) THEN sp.fh
  ELSE LET c == Find(sp.uri, colon)
           n == Len(sp.uri)
           F == {i \in (c + 1)..n : sp.uri[i] # slash}
           first == CHOOSE i \in F : \A j \in F : i <= j
           E == {i \in (first + 1)..n : ~AlNum(sp.uri[i])}
       IN  IF c = 0 \/ F = {} \/ E = {} THEN sp.uri ELSE SubSeq(sp.uri, 1, (CHOOSE i \in E : \A j \in E : i <= j) - 1)

\* the text form is understood as the same file, json as the same fields
There(ev, sp, parsed) ==
  /\ Same("disk", ev.disk, IsDisk(sp)) /\ Same("empty", ev.none, sp = Empty)
  /\ (IF sp = Empty \/ (~parsed /\ ~IsDisk(sp) /\ sp.uri # <<>>) \/ (IsDisk(sp) /\ sp.chunks = <<<<>>>> /\ sp.extras = {}) THEN TRUE
      ELSE Same("text", [rc |-> ev.brc, same |-> SameFile(sp, Sp(ev.back))], [rc |-> 0, same |-> TRUE]))
  /\ Same("json", [ok |-> ev.jrc, sp |-> Sp(ev.jsp)], [ok |-> TRUE, sp |-> sp])
  /\ Same("equal", <<ev.same, ev.hash, ev.others>>, <<TRUE, TRUE, TRUE>>)
  /\ Same("extra", ev.extra, TRUE)
  /\ Same("location", ev.loc, Loc(sp))

Parsed(ev) ==
  LET p == IF ev.s # <<>> /\ ev.s[1] = brace THEN Bad ELSE OfText(ev.s, ev.d, reg) IN
  IF Unclear(ev.s, ev.d, reg) THEN TRUE
  ELSE /\ Same("parse.rc", ev.rc = 0, p.ok)
       /\ (IF p.ok THEN Same("parse", Sp(ev.sp), p.sp) /\ There(ev, p.sp, TRUE)
           ELSE IF ev.s # <<>> /\ ev.s[1] = brace THEN Same("parse.cleared", Sp(ev.sp), Empty) ELSE TRUE)

Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Fields(ev) ==
  LET sp == Sp(ev.f)
      has == sp.sizes # <<>> /\ Len(sp.sizes) = Len(sp.chunks) IN
  /\ Same("fields", Sp(ev.sp), sp) /\ There(ev, sp, FALSE)
  /\ Same("hassizes", ev.hassizes, has)
  /\ (IF has THEN Same("size", ev.size, Sum(sp.sizes)) ELSE IF ~IsDisk(sp) \/ sp.chunks = <<>> THEN Same("size", ev.size, 0 - 1) ELSE TRUE)

\* json: members <<key, kind, value>>; kind "s" string, "a" array of <<kind, value>>, "o" anything else
kChunks == <<99, 104, 117, 110, 107, 115>>
kSizes == <<99, 104, 117, 110, 107, 95, 115, 105, 122, 101, 115>>
kStorage == <<115, 116, 111, 114, 97, 103, 101>>
kName == <<102, 105, 108, 101, 110, 97, 109, 101>>
kUri == <<115, 111, 117, 114, 99, 101, 95, 117, 114, 105>>
First(doc, k) == SelectSeq(doc, LAMBDA m : m[1] = k)
StrOf(doc, k) == LET m == First(doc, k) IN IF m # <<>> /\ m[1][2] = "s" THEN m[1][3] ELSE <<>>
ArrOf(doc, k, kind) == LET m == First(doc, k) IN IF m # <<>> /\ m[1][2] = "a" THEN SelectSeq(m[1][3], LAMBDA x : x[1] = kind) ELSE <<>>
Values(q) == [i \in 1..Len(q) |-> q[i][2]]
OfDoc(doc) == [fh |-> StrOf(doc, kStorage), fn |-> StrOf(doc, kName), uri |-> StrOf(doc, kUri), chunks |-> Values(ArrOf(doc, kChunks, "s")),
               sizes |-> Values(ArrOf(doc, kSizes, "i")),
               extras |-> LET X == SelectSeq(doc, LAMBDA m : m[2] = "s" /\ m[1] \notin {kChunks, kStorage, kName, kUri}) IN
                          {<<X[i][1], X[i][3]>> : i \in {i \in 1..Len(X) : \A j \in 1..(i - 1) : X[j][1] # X[i][1]}}]
Json(ev) == /\ Same("json.ok", ev.ok, ~ev.bad)
            /\ Same("json.fields", Sp(ev.sp), IF ev.bad THEN Empty ELSE OfDoc(ev.doc))

\* numbers in parameters
Default == <<49, 50, 51, 52, 53, 52, 51, 50, 49>>
RECURSIVE Strip(_)
Strip(q) == IF Len(q) > 1 /\ q[1] = 48 THEN Strip(Tail(q)) ELSE q
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLeq(Tail(a), Tail(b)))
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))
D(n) == [i \in 1..Len(n) |-> n[i] + 48]
Number(s, signed, min, max) ==
  LET neg == signed /\ s # <<>> /\ s[1] = 45
      q == IF neg THEN Tail(s) ELSE s
      z == Strip(q)
  IN  IF q = <<>> \/ (\E i \in 1..Len(q) : ~Digit(q[i])) THEN Default
      ELSE IF ~Leq(z, IF neg THEN min ELSE max) THEN Default ELSE IF neg /\ z # <<48>> THEN <<45>> \o z ELSE z
Numbers(ev) ==
  /\ Same("int", ev.i32, Number(ev.s, TRUE, D(<<2,1,4,7,4,8,3,6,4,8>>), D(<<2,1,4,7,4,8,3,6,4,7>>)))
  /\ Same("int64", ev.i64, Number(ev.s, TRUE, D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>), D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)))
  /\ Same("uint64", ev.u64, Number(ev.s, FALSE, <<>>, D(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)))
  /\ (IF ev.s = <<>> THEN Same("bool", <<ev.bt, ev.bf>>, <<TRUE, FALSE>>)
      ELSE IF ev.s \in {<<48>>, <<102, 97, 108, 115, 101>>} THEN Same("bool", <<ev.bt, ev.bf>>, <<FALSE, FALSE>>)
      ELSE IF ev.s \in {<<49>>, <<116, 114, 117, 101>>} THEN Same("bool", <<ev.bt, ev.bf>>, <<TRUE, TRUE>>) ELSE TRUE)

\* opening
Failing(sp) == Extra(sp, <<102, 97, 105, 108>>) # <<>>
FileThere(sp) == sp.chunks # <<>> /\ (\A i \in 1..Len(sp.chunks) : sp.chunks[i] = <<102>>)
Matches(n, sp) == sp.fh = <<>> \/ sp.fh = n \/ (n \in {Disk, Async} /\ IsDisk(sp))
Opens(n, sp) == Matches(n, sp) /\ (IF n \in {Disk, Async} THEN FileThere(sp) ELSE ~Failing(sp))
Call(k, n) == IF n \in {Disk, Async} THEN <<>> ELSE <<[k |-> k, n |-> n, same |-> TRUE]>>
By(n) == <<98, 121, 32>> \o n
ByFactory(sp, given) ==
  LET d == Delegator(sp, given, reg) IN
  CASE d.k = "missing" -> [ok |-> FALSE, calls |-> <<>>, got |-> <<>>]
    [] d.k = "handler" -> [ok |-> Opens(d.n, sp), calls |-> Call(d.k, d.n), got |-> d.n]
    [] OTHER -> [ok |-> ~Failing(sp), calls |-> Call(d.k, d.n), got |-> By(d.n)]
ByHandler(sp, own, given) ==
  IF given # <<>> /\ Opens(given, sp) THEN [ok |-> TRUE, calls |-> Call("handler", given), got |-> given, own |-> FALSE]
  ELSE LET before == (IF given = <<>> THEN <<>> ELSE Call("handler", given)) \o Call("handler", own)
           f == ByFactory(sp, <<>>)
       IN  IF Matches(own, sp) THEN [ok |-> Opens(own, sp), calls |-> before, got |-> <<>>, own |-> Opens(own, sp)]
           ELSE [ok |-> f.ok, calls |-> before \o f.calls, got |-> f.got, own |-> FALSE]
Opened(ev) ==
  LET sp == Sp(ev.f)
      x == IF ev.via = "handler" THEN ByHandler(sp, ev.own, ev.given) ELSE ByFactory(sp, IF ev.via = "make" THEN <<>> ELSE ev.given) IN
  /\ Same("open.rc", ev.rc = 0, x.ok)
  /\ Same("open.calls", ev.calls, x.calls)
  /\ (IF x.ok THEN Same("open.handler", ev.got, x.got) ELSE TRUE)
  /\ (IF ev.via = "handler" THEN Same("open.own", ev.ownopen, x.own) ELSE TRUE)
  /\ (IF x.got \in reg.h \/ x.got = ev.given THEN Same("open.opened", ev.opened, x.ok /\ x.got # <<>>) ELSE TRUE)

Expect(ev) ==
  CASE ev.ev = "parse" -> Parsed(ev)
    [] ev.ev = "spec" -> Fields(ev)
    [] ev.ev = "json" -> Json(ev)
    [] ev.ev = "query" -> LET p == Param(ev.s) IN
         /\ Same("query.rc", ev.rc = 0, p # {}) /\ (IF p # {} THEN Same("query", {<<ev.key, ev.val>>}, p) ELSE TRUE)
    [] ev.ev = "decode" -> LET p == Decode(ev.s) IN /\ Same("decode.rc", ev.rc = 0, p.ok) /\ (IF p.ok THEN Same("decode", ev.out, p.v) ELSE TRUE)
    [] ev.ev = "num" -> Numbers(ev)
    [] ev.ev = "set" -> Same("set", ev.ok, TRUE)
    [] ev.ev = "open" -> Opened(ev)
    [] OTHER -> TRUE

Change(S, x, on) == IF on THEN S \cup {x} ELSE S \ {x}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \E ev \in {Trace[l]} :
     /\ (IF Expect(ev) THEN TRUE ELSE FALSE)
     /\ reg' = (IF ev.ev = "begin" THEN NoReg
                ELSE IF ev.ev # "reg" THEN reg
                ELSE IF ev.kind = "handler" THEN [reg EXCEPT !.h = Change(@, ev.name, ev.on)]
                ELSE IF ev.kind = "delegator" THEN [reg EXCEPT !.d = Change(@, ev.name, ev.on)]
                ELSE [reg EXCEPT !.x = Change(@, <<ev.name, ev.value>>, ev.on)])
Init == l = 1 /\ reg = NoReg
Spec == Init /\ [][Next]_vars
=============================================================================
