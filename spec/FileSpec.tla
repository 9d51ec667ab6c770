------------------------------ MODULE FileSpec ------------------------------
(* What a string (path, path with parameters, URI, json) names: storage     *)
(* handler, chunks, extra parameters; the text form of a file specification;*)
(* and which handler or delegator is asked to open it.                      *)
(* Strings are sequences of bytes.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Disk == <<100, 105, 115, 107, 102, 105, 108, 101>>                      \* "diskfile"
Async == <<97, 115, 121, 110, 99>> \o Disk                              \* "asyncdiskfile"
colon == 58  question == 63  equals == 61  percent == 37  amp == 38  semi == 59  brace == 123  slash == 47
Lower(c) == c \in 97..122
Upper(c) == c \in 65..90
Digit(c) == c \in 48..57
Alpha(c) == Lower(c) \/ Upper(c)
Hex(c) == Digit(c) \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF Lower(c) THEN c - 87 ELSE c - 55
Control(c) == c < 32
SchemeChar(c) == Alpha(c) \/ Digit(c) \/ c \in {46, 45, 43, 95}
Scheme(s) == s # <<>> /\ Alpha(s[1]) /\ (\A i \in 1..Len(s) : SchemeChar(s[i]))
\* position of the first c, 0 if there is none
Find(s, c) == IF \E i \in 1..Len(s) : s[i] = c THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ (\A j \in 1..(i - 1) : s[j] # c) ELSE 0

----------------------------------------------------------------------------
(* %XX stands for a byte; a % without two hex digits stands for itself *)
Encoded(s, i) == s[i] = percent /\ i + 2 <= Len(s) /\ Hex(s[i + 1]) /\ Hex(s[i + 2])
RECURSIVE Dec(_, _, _)
Dec(s, i, o) ==
  IF i > Len(s) THEN [ok |-> TRUE, v |-> o]
  ELSE LET e == Encoded(s, i)
           c == IF e THEN 16 * HexVal(s[i + 1]) + HexVal(s[i + 2]) ELSE s[i]
       IN  IF Control(c) THEN [ok |-> FALSE, v |-> <<>>] ELSE Dec(s, i + (IF e THEN 3 ELSE 1), Append(o, c))
Decode(s) == Dec(s, 1, <<>>)
(* one parameter: {} if ill-formed *)
Param(s) == LET e == Find(s, equals) IN
  IF e <= 1 \/ e = Len(s) THEN {}
  ELSE LET k == Decode(SubSeq(s, 1, e - 1))
           x == SubSeq(s, e + 1, Len(s))
           v == Decode(x)
       IN  IF Find(x, equals) # 0 \/ ~k.ok \/ ~v.ok THEN {} ELSE {<<k.v, v.v>>}
Pieces(s) == LET P == SetToSortSeq({0, Len(s) + 1} \cup {i \in 1..Len(s) : s[i] \in {amp, semi}}, LAMBDA a, b : a < b)
             IN  [k \in 1..(Len(P) - 1) |-> SubSeq(s, P[k] + 1, P[k + 1] - 1)]
Set(E, p) == {x \in E : x[1] # p[1]} \cup {p}
Params(s) == FoldLeft(LAMBDA E, x : IF Param(x) = {} THEN E ELSE Set(E, CHOOSE p \in Param(x) : TRUE), {}, Pieces(s))

(* <scheme>:<path>?<parameters>, without scheme if there are parameters *)
BadUri == [ok |-> FALSE, scheme |-> <<>>, path |-> <<>>, extras |-> {}]
ParseUri(u) ==
  LET c == Find(u, colon)
      q == Find(u, question)
      last == IF q = 0 THEN Len(u) ELSE q - 1
      sch == SubSeq(u, 1, c - 1)
      p == Decode(SubSeq(u, c + 1, last))
  IN  IF c = 1 \/ (c > 1 /\ ~Scheme(sch)) \/ (c = 0 /\ q = 0) \/ last <= c \/ ~p.ok THEN BadUri
      ELSE [ok |-> TRUE, scheme |-> sch, path |-> p.v, extras |-> IF q = 0 THEN {} ELSE Params(SubSeq(u, q + 1, Len(u)))]

----------------------------------------------------------------------------
(* a file specification; the handlers and delegators known: reg.h names, reg.d names, reg.x <<parameter, value>> *)
Empty == [fh |-> <<>>, fn |-> <<>>, uri |-> <<>>, chunks |-> <<>>, sizes |-> <<>>, extras |-> {}]
IsDisk(sp) == sp.fh \in {<<>>, Disk, Async}
Bad == [ok |-> FALSE, sp |-> Empty]
Extra(sp, k) == IF \E p \in sp.extras : p[1] = k THEN (CHOOSE p \in sp.extras : p[1] = k)[2] ELSE <<>>
\* parameters that ask for a delegator
Asking(sp, reg) == {p \in sp.extras : p[2] # <<>> /\ (\E x \in reg.x : x[1] = p[1])}
ExtraMissing(sp, reg) == \E p \in Asking(sp, reg) : p \notin reg.x
OfUri(u, handler, reg) ==
  LET r == ParseUri(u)
      fh == IF r.scheme = <<>> THEN handler ELSE r.scheme
      sp == [Empty EXCEPT !.fh = fh, !.uri = u, !.chunks = <<r.path>>, !.extras = r.extras]
  IN  IF ~r.ok \/ (handler \in {Disk, Async} /\ fh # handler) \/ ExtraMissing(sp, reg) THEN Bad ELSE [ok |-> TRUE, sp |-> sp]
HasScheme(s) == LET c == Find(s, colon) IN c > 2 /\ Scheme(SubSeq(s, 1, c - 1))
HasParams(s) == LET q == Find(s, question) IN
  /\ q > 2 /\ q < Len(s) /\ Alpha(s[q + 1])
  /\ (\E i \in (q + 2)..Len(s) : s[i] = equals)
(* what a path, a path with parameters or a URI means (json is another notation of the fields) *)
OfText(s, default, reg) ==
  IF s = <<>> THEN Bad
  ELSE IF HasScheme(s) THEN OfUri(s, SubSeq(s, 1, Find(s, colon) - 1), reg)
  ELSE LET fh == IF default = <<>> THEN Disk ELSE default
           u == OfUri(s, fh, reg)
       IN  IF HasParams(s) /\ u.ok THEN u ELSE [ok |-> TRUE, sp |-> [Empty EXCEPT !.fh = fh, !.chunks = <<s>>]]
\* a path with parameters that ask for a missing delegator, or (other handlers) a drive letter: not judged
Unclear(s, default, reg) ==
  /\ s # <<>> /\ s[1] # brace /\ ~HasScheme(s) /\ HasParams(s)
  /\ \/ Find(s, colon) # 0 /\ default \notin {<<>>, Disk}
     \/ LET r == ParseUri(s) IN r.ok /\ ExtraMissing([Empty EXCEPT !.extras = r.extras], reg)

(* the text form: a string, or the fields (json) *)
NoReg == [h |-> {Disk, Async}, d |-> {}, x |-> {}]
Text(sp, reg) ==
  IF IsDisk(sp) THEN
    IF Len(sp.chunks) = 1 /\ sp.extras = {} /\ (LET p == OfText(sp.chunks[1], <<>>, reg) IN
         /\ sp.chunks[1] # <<>> /\ sp.chunks[1][1] # brace
         /\ p.ok /\ IsDisk(p.sp) /\ p.sp.chunks = sp.chunks /\ p.sp.extras = {})
    THEN [json |-> FALSE, s |-> sp.chunks[1]] ELSE [json |-> TRUE, s |-> <<>>]
  ELSE IF sp.uri # <<>> THEN [json |-> FALSE, s |-> sp.uri] ELSE [json |-> TRUE, s |-> <<>>]
OfForm(t, sp, default, reg) == IF t.json THEN [ok |-> TRUE, sp |-> sp] ELSE OfText(t.s, default, reg)
\* same file: local files need only have the same chunks and parameters
SameFile(a, b) == IF IsDisk(a) /\ Len(a.chunks) = 1 /\ a.extras = {} THEN IsDisk(b) /\ a.chunks = b.chunks /\ b.extras = {} ELSE a = b

----------------------------------------------------------------------------
(* who opens the file.  given: handler already there (<<>> if none) *)
Delegator(sp, given, reg) ==
  IF ExtraMissing(sp, reg) THEN [k |-> "missing", n |-> <<>>]
  ELSE IF Asking(sp, reg) # {} THEN [k |-> "extra", n |-> (CHOOSE p \in Asking(sp, reg) : TRUE)[2]]
  ELSE IF sp.fh # <<>> /\ given # sp.fh THEN
         IF sp.fh \in reg.d THEN [k |-> "delegator", n |-> sp.fh]
         ELSE IF sp.fh \in reg.h THEN [k |-> "handler", n |-> sp.fh] ELSE [k |-> "missing", n |-> <<>>]
  ELSE [k |-> "handler", n |-> IF given = <<>> THEN Disk ELSE given]
=============================================================================
