----------------------------- MODULE MC_LspNav ------------------------------
(* All short programs made of the blocks below: what the navigation tables   *)
(* must satisfy when the program has been read.                              *)
EXTENDS LspNav
CONSTANTS MaxBlocks, MaxCopy, MaxBody
Tok(k,n,c,e) == [k |-> k, n |-> n, c |-> c, e |-> e, o |-> FALSE]
St(k,op,toks,decl,seq,sym,to) == [l |-> 0, k |-> k, text |-> "", seq |-> seq, op |-> <<op,3,6>>, toks |-> toks, decl |-> decl, sym |-> sym, val |-> "", attr |-> "", sig |-> "", file |-> "LIB/C", to |-> to]
LclA == St("decl","LCL",<<Tok("VAR","A",7,9)>>,<<<<"A",7,"A">>>>,"","","")
SetA == St("set","SETA",<<Tok("VAR","A",0,2)>>,<<<<"A",0,"A">>>>,"","","")
UseA == St("plain","LR",<<Tok("VAR","A",7,9),Tok("ORD","X",10,11)>>,<<>>,"","","")
Anop == St("plain","ANOP",<<Tok("SEQ","S",0,2)>>,<<>>,"S","","")
Aif  == St("plain","AIF",<<Tok("SEQ","S",9,11)>>,<<>>,"","","")
Equ  == St("plain","EQU",<<Tok("ORD","X",0,1)>>,<<>>,"","X","")
Mac  == St("macro","MACRO",<<>>,<<>>,"","","")
Mend == St("mend","MEND",<<>>,<<>>,"","","")
Proto(m,p) == St("proto",m,IF p THEN <<Tok("VAR","A",7,9)>> ELSE <<>>,IF p THEN <<<<"A",7,"P">>>> ELSE <<>>,"","","")
Call(m) == St("call",m,<<>>,<<>>,"","","")
Copy == St("copy","COPY",<<Tok("COPY","C",8,9)>>,<<>>,"","","")
Ago  == <<St("ago","AGO",<<Tok("SEQ","T",7,9)>>,<<>>,"","","T"),SetA,St("plain","ANOP",<<Tok("SEQ","T",0,2)>>,<<>>,"T","","")>>
Simple == {LclA,SetA,UseA,Anop,Aif,Equ}
Bodies == UNION {[1..n -> Simple] : n \in 0..MaxBody}
Nested == {<<Mac,Proto("N",FALSE)>> \o b \o <<Mend>> : b \in [1..1 -> {SetA,Anop}]} \cup {<<>>}
Macros == {<<Mac,Proto("M",p)>> \o i \o b \o <<Mend>> : p \in BOOLEAN, b \in Bodies, i \in Nested}
Blocks == {<<x>> : x \in Simple \cup {Call("M"),Call("N"),Copy}} \cup {Ago}
Number(L) == [i \in DOMAIN L |-> [L[i] EXCEPT !.l = i-1]]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Members == UNION {[1..n -> {<<SetA>>,<<Anop>>,<<UseA>>}] : n \in 1..MaxCopy}
VARIABLES files, fr, t
Init == /\ \E m \in Macros, n \in 1..MaxBlocks, c \in Members : \E b \in [1..n -> Blocks], at \in 0..n :
             LET use == (\E i \in 1..n : b[i][1].k = "copy") IN (use \/ c = <<<<SetA>>>>) /\ files = [f \in {"OPEN","LIB/C"} |-> IF f = "LIB/C" THEN Number(Cat(c)) ELSE Number(Cat(SubSeq(b,1,at)) \o m \o Cat(SubSeq(b,at+1,n)))]
        /\ fr = Start(files) /\ t = Empty0
Next == fr # <<>> /\ \E r \in {Step(files,fr,t)} : fr' = r.fr /\ t' = r.t /\ UNCHANGED files
Spec == Init /\ [][Next]_<<files,fr,t>>
\* an object is defined at one place at most
OneDefinition == \A o \in t.occ : Cardinality(DefOf(t,o[1])) <= 1
\* a token stands for one object of its kind, except that a sequence of redefinitions of a macro may meet in a call
OneObject == \A o,p \in t.occ : (o[2] = p[2] /\ o[3] = p[3] /\ o[4] = p[4] /\ o[1][1] = p[1][1] /\ o[1][1] \notin {"MAC","OP"}) => (o[1] = p[1] \/ o[2] = "LIB/C")
\* going to the definition of a variable, sequence symbol or macro and asking again stays there
DefinitionIsReference == \A o \in t.occ : o[1][1] \in {"VAR","SEQ","MAC"} => DefOf(t,o[1]) \subseteq RefsOf(t,o[1])
\* names of different scopes never meet
Scoped == \A o,p \in t.occ : (o[1][1] \in {"VAR","SEQ"} /\ p[1][1] = o[1][1] /\ o[1][2] # p[1][2]) => RefsOf(t,o[1]) \cap RefsOf(t,p[1]) \subseteq {r \in RefsOf(t,o[1]) : r[1] = "LIB/C"}
\* what is known is never forgotten, the first declaration stays the definition
Grows == [][t.occ \subseteq t'.occ /\ t.vdef \subseteq t'.vdef /\ t.sdef \subseteq t'.sdef /\ t.odef \subseteq t'.odef]_<<files,fr,t>>
=============================================================================
