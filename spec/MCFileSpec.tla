----------------------------- MODULE MCFileSpec -----------------------------
(* All short strings over a small alphabet, typed one character at a time:   *)
(* what is accepted is well-formed, and its text form means the same file.   *)
EXTENDS FileSpec, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES s

Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s

Other == <<97, 97>>
Defaults == {<<>>, Other}
Regs == {NoReg, [h |-> {Disk, Async, Other}, d |-> {}, x |-> {<<<<97>>, <<97>>>>}]}
Back(p, d, reg) == OfForm(Text(p.sp, reg), p.sp, IF IsDisk(p.sp) THEN <<>> ELSE d, reg)
\* a specification converted to text and parsed again is the same
RoundTrip == s = <<>> \/ s[1] = brace \/ \A d \in Defaults, reg \in Regs :
  LET p == OfText(s, d, reg) IN (p.ok /\ ~Unclear(s, d, reg)) => (LET b == Back(p, d, reg) IN b.ok /\ SameFile(p.sp, b.sp))
\* also when it was made of that single chunk
ChunkRoundTrip == \A reg \in Regs : LET sp == [Empty EXCEPT !.fh = Disk, !.chunks = <<s>>]
                                        b == Back([sp |-> sp], <<>>, reg) IN b.ok /\ SameFile(sp, b.sp)
\* accepted URIs are well-formed
WellFormed == LET r == ParseUri(s) IN r.ok =>
  /\ r.path # <<>> /\ (r.scheme # <<>> => Scheme(r.scheme))
  /\ (\A i \in 1..Len(r.path) : ~Control(r.path[i]))
  /\ (\A p \in r.extras : /\ p[1] # <<>> /\ p[2] # <<>>
                          /\ (\A i \in 1..Len(p[1]) : ~Control(p[1][i])) /\ (\A i \in 1..Len(p[2]) : ~Control(p[2][i])))
  /\ (\A p, q \in r.extras : p[1] = q[1] => p = q)
\* any characters can be used in path, keys and values when they're encoded
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Encode(x) == FoldLeft(LAMBDA o, c : o \o <<percent, HexDigit(c \div 16), HexDigit(c % 16)>>, <<>>, x)
AnyCharacters == (s # <<>> /\ (\A i \in 1..Len(s) : ~Control(s[i]))) =>
  /\ Decode(Encode(s)) = [ok |-> TRUE, v |-> s]
  /\ ParseUri(Other \o <<colon>> \o Encode(s) \o <<question>> \o Encode(s) \o <<equals>> \o Encode(s))
       = [ok |-> TRUE, scheme |-> Other, path |-> s, extras |-> {<<s, s>>}]
\* a plain path is a local file
PlainPath == (s # <<>> /\ ~HasScheme(s) /\ ~HasParams(s)) => OfText(s, <<>>, NoReg) = [ok |-> TRUE, sp |-> [Empty EXCEPT !.fh = Disk, !.chunks = <<s>>]]
=============================================================================
