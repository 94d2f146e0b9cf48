--------------------------- MODULE Trace_Records ---------------------------
(* Recorded assemblies of records: the machine reads statement after         *)
(* statement from the records and performs it; the values of the variable    *)
(* symbols, the records read by AREAD, the operands macros were called with  *)
(* and the addresses of labels must be those recorded.                       *)
EXTENDS Records, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, src, st, exp
vars == <<ci,src,st,exp>>
OK == [ok |-> TRUE]
Start0 == [c |-> {}, a |-> {}, mp |-> <<>>, ar |-> <<>>, sym |-> {}, loc |-> 0]
RECURSIVE Dec(_,_)
Dec(s,n) == IF s = "" THEN n ELSE Dec(SubSeq(s,2,Len(s)), n*10 + DigVal[Ch(s,1)])
\* the text between apostrophes; pairs of apostrophes (and of ampersands) stand for one
RECURSIVE Undouble(_,_)
Undouble(s,two) == LET D == {i \in 1..Len(s)-1 : Ch(s,i) \in two /\ Ch(s,i+1) = Ch(s,i)} IN
                   IF D = {} THEN s ELSE LET i == Least(D) IN SubSeq(s,1,i) \o Undouble(SubSeq(s,i+2,Len(s)),two)
Text(s,two) == Undouble(SubSeq(s,2,Len(s)-1),two)
Plus(s) == {i \in 1..Len(s) : Ch(s,i) = "+"}
RECURSIVE Sum(_)
Sum(s) == LET P == Plus(s) IN IF P = {} THEN Dec(s,0) ELSE LET i == Least(P) IN Dec(SubSeq(s,1,i-1),0) + Sum(SubSeq(s,i+1,Len(s)))
Index(l) == LET i == IndexOf(l,"(") IN Dec(SubSeq(l,i+1,Len(l)-1),0)
Assign(old,i,vs) == {p \in old : p[1] \notin i..(i+Len(vs)-1)} \cup {<<i+n-1,vs[n]>> : n \in DOMAIN vs}
RECURSIVE SumTo(_,_)
SumTo(v,n) == IF n = 0 THEN 0 ELSE v[n] + SumTo(v,n-1)
\* the macro of mixed reads and insertions
RECURSIVE Mix(_,_,_,_)
Mix(o,i,s,ar) == IF i > Len(o) THEN [src |-> s, ar |-> ar] ELSE
  CASE o[i] = "R" -> Mix(o,i+1,TLCEval(ReadRest(s)),TLCEval(Append(ar,ReadValue(s))))
    [] o[i] = "B" -> Mix(o,i+2,TLCEval(InsertBack(s,Text(o[i+1],{"'","&"}))),ar)
    [] o[i] = "F" -> Mix(o,i+2,TLCEval(InsertFront(s,Text(o[i+1],{"'","&"}))),ar)
RECURSIVE Reads(_,_,_)
Reads(n,s,ar) == IF n = 0 THEN [src |-> s, ar |-> ar] ELSE Reads(n-1,TLCEval(ReadRest(s)),TLCEval(Append(ar,ReadValue(s))))
Default(p) == LET i == IndexOf(p,"=") IN SubSeq(p,i+1,Len(p))
Called(ops) == <<"N=" \o ToString(Len(ops))>> \o ops
Alt == {"SETC","SETA","CALL","RD","MX"}
Perform(c,recs,s,t) ==
  IF IsComment(recs[1]) THEN [src |-> s, st |-> t] ELSE
  LET h == Head1(recs)
      ops == TLCEval(Split(OperandField(recs,h.op \in Alt)))
  IN CASE h.op = "" -> [src |-> s, st |-> t]
       [] h.op = "SETC" -> [src |-> s, st |-> [t EXCEPT !.c = Assign(@,Index(h.label),[n \in DOMAIN ops |-> Text(ops[n],{"'"})])]]
       [] h.op = "SETA" -> [src |-> s, st |-> [t EXCEPT !.a = Assign(@,Index(h.label),[n \in DOMAIN ops |-> Sum(ops[n])])]]
       [] h.op = "EQU" -> [src |-> s, st |-> [t EXCEPT !.sym = @ \cup {<<h.label,Sum(ops[1]),1>>}]]
       [] h.op = "DC" -> LET ls == [n \in DOMAIN ops |-> Len(Text(SubSeq(ops[n],2,Len(ops[n])),{"'","&"}))] IN
                         [src |-> s, st |-> [t EXCEPT !.sym = @ \cup {<<h.label,t.loc,ls[1]>>}, !.loc = @ + SumTo(ls,Len(ls))]]
       [] h.op = "CALL" -> [src |-> s, st |-> [t EXCEPT !.mp = @ \o Called(ops)]]
       [] h.op = "RD" -> LET m == Reads(Dec(ops[1],0),s,t.ar) IN [src |-> m.src, st |-> [t EXCEPT !.ar = m.ar]]
       [] h.op = "MX" -> LET m == Mix(ops,1,s,t.ar) IN [src |-> m.src, st |-> [t EXCEPT !.ar = m.ar]]
       [] h.op = "AINSERT" -> LET r == Text(ops[1],{"'","&"}) IN [src |-> IF ops[2] = "FRONT" THEN InsertFront(s,r) ELSE InsertBack(s,r), st |-> t]
       [] h.op \in DOMAIN c.protos -> LET ps == Split(OperandField(c.protos[h.op],TRUE)) IN [src |-> s, st |-> [t EXCEPT !.mp = @ \o Called([n \in DOMAIN ps |-> Default(ps[n])])]]
Pairs(q) == {<<n,q[n]>> : n \in DOMAIN q}
Seen(x) == {<<x[n][1],x[n][2]>> : n \in DOMAIN x}
Syms(c) == {<<c.syms[n][1],c.syms[n][2],c.syms[n][3]>> : n \in DOMAIN c.syms}
Same(n,e,o) == IF e = o THEN {} ELSE {<<n,"missing",e \ o,"unexpected",o \ e>>}
Judge(c,t) == LET x == Same("C",t.c,Seen(c.c)) \cup Same("A",t.a,Seen(c.a)) \cup Same("MP",Pairs(t.mp),Seen(c.mp))
                       \cup Same("AR",Pairs(t.ar),Seen(c.ar)) \cup Same("symbols",t.sym,Syms(c)) \cup Same("diagnostics",{},{c.diags[n] : n \in DOMAIN c.diags})
              IN IF x = {} THEN OK ELSE [ok |-> FALSE, wrong |-> x]
Init == ci \in 1..Len(Cases) /\ src = Source(Cases[ci].recs) /\ st = Start0 /\ exp = OK
Next == /\ exp = OK /\ ~Empty(src) /\ UNCHANGED ci
        /\ \E g \in {NextStatement(src)} : \E p \in {Perform(Cases[ci],g.recs,g.src,st)} :
             src' = p.src /\ st' = p.st /\ exp' = IF Empty(p.src) THEN Judge(Cases[ci],p.st) ELSE OK
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
