---------------------------- MODULE BaseProtocol ----------------------------
(* The base protocol: header lines, an empty line, a body of Content-Length  *)
(* bytes.  The stream is a sequence of byte values.                          *)
EXTENDS Integers, Sequences, FiniteSets
CR == 13
LF == 10
CLen == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32>> \* "Content-Length: "
Digits == 48..57
RECURSIVE NextLF(_,_), Num(_,_,_)
NextLF(b,i) == IF i > Len(b) THEN 0 ELSE IF b[i] = LF THEN i ELSE NextLF(b,i+1)
Num(b,i,v) == IF i > Len(b) \/ b[i] \notin Digits THEN v ELSE Num(b,i+1,v*10 + b[i] - 48)
StartsWith(l,p) == Len(l) >= Len(p) /\ SubSeq(l,1,Len(p)) = p
\* reader state: i position, len declared length (-1 none), ph "head" | "body" | "end", out decoded bodies
R0 == [i |-> 1, len |-> -1, ph |-> "head", out |-> <<>>]
HeadStep(b,r) ==
  LET e == NextLF(b,r.i) IN
  IF e = 0 THEN [r EXCEPT !.ph = "end"]
  ELSE LET l == SubSeq(b,r.i,e-1) IN
       IF l = <<CR>> THEN [r EXCEPT !.i = e+1, !.ph = IF r.len > 0 THEN "body" ELSE "bad"]
       ELSE IF StartsWith(l,CLen) THEN [r EXCEPT !.i = e+1, !.len = Num(l,Len(CLen)+1,0)]
       ELSE [r EXCEPT !.i = e+1]
BodyStep(b,r) ==
  IF r.i + r.len - 1 > Len(b) THEN [r EXCEPT !.ph = "end"]
  ELSE [r EXCEPT !.out = Append(@,SubSeq(b,r.i,r.i+r.len-1)), !.i = @ + r.len, !.len = -1, !.ph = "head"]
Step(b,r) == IF r.ph = "head" THEN HeadStep(b,r) ELSE BodyStep(b,r)
RECURSIVE Decode(_,_)
Decode(b,r) == IF r.ph \in {"end","bad"} THEN r ELSE Decode(b,Step(b,r))
\* the writer
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48+n>> ELSE Append(Dec(n \div 10),48 + (n % 10))
Frame(body) == CLen \o Dec(Len(body)) \o <<CR,LF,CR,LF>> \o body
RECURSIVE Frames(_,_)
Frames(bs,i) == IF i > Len(bs) THEN <<>> ELSE Frame(bs[i]) \o Frames(bs,i+1)
=============================================================================
