------------------------------- MODULE LspNav -------------------------------
(* Navigation. A machine reads a program the way the assembler does (macro   *)
(* definitions, copy members, calls, branches) and records which object each *)
(* token of the text stands for and where each object is defined. Answers to *)
(* definition, references, hover and completion requests are functions of    *)
(* these tables.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Greatest(S) == CHOOSE i \in S : \A j \in S : i >= j
Open == <<"open",0>>
\* ---- tables --------------------------------------------------------------
\* occ: <<object,file,line,column,end>>; vdef: <<scope,name,file,line,column,type>>; sdef: <<scope,name,file,line,column>>
\* odef: <<name,file,line,value,attributes>>; mac: <<name,id>>; mdef: <<id,file,line,column,index of the prototype>>; bodies: <<id,body>>; where: <<file,line,scope>>
Empty0 == [occ |-> {}, vdef |-> {}, sdef |-> {}, odef |-> {}, mac |-> {}, mdef |-> {}, bodies |-> {}, where |-> {}]
Known(t,s,n) == \E d \in t.vdef : d[1] = s /\ d[2] = n
\* declarations of variables of a statement, in their order; the first one of a name counts
RECURSIVE Declare(_,_,_,_,_)
Declare(vs,s,f,l,D) == IF vs = <<>> THEN D ELSE LET v == Head(vs) IN
   Declare(Tail(vs),s,f,l,IF \E d \in D : d[1] = s /\ d[2] = v[1] THEN D ELSE D \cup {<<s,v[1],f,l,v[2],v[3]>>})
Object(k,s,n) == IF k \in {"VAR","SEQ"} THEN <<k,s,n>> ELSE <<k,n>>
Tokens(st,f,s,kinds) == {<<Object(st.toks[n].k,s,st.toks[n].n),f,st.l,st.toks[n].c,st.toks[n].e>> : n \in {m \in DOMAIN st.toks : st.toks[m].k \in kinds /\ ~st.toks[m].o}}
SeqDef(D,st,s,f) == IF st.seq = "" \/ (\E d \in D : d[1] = s /\ d[2] = st.seq) THEN D ELSE D \cup {<<s,st.seq,f,st.l,0>>}
\* ---- macro definitions ---------------------------------------------------
\* the statements of a body with copy members put in: <<file,index,level>> where level counts enclosing definitions
RECURSIVE Flat(_,_,_,_,_)
Flat(F,b,i,level,copied) == IF i > Len(b) THEN <<>> ELSE
  LET st == F[b[i][1]][b[i][2]] IN
  IF st.k = "copy" /\ ~copied THEN <<Append(b[i],level)>> \o Flat(F,[n \in DOMAIN F[st.file] |-> <<st.file,n>>],1,level,copied) \o Flat(F,b,i+1,level,copied)
  ELSE IF st.k = "macro" THEN <<Append(b[i],level+1)>> \o Flat(F,b,i+1,level+1,copied)
  ELSE IF st.k = "mend" THEN <<Append(b[i],level)>> \o Flat(F,b,i+1,level-1,copied)
  ELSE <<Append(b[i],level)>> \o Flat(F,b,i+1,level,copied)
\* index of the MEND that closes the MACRO at i
RECURSIVE Close(_,_,_,_)
Close(F,b,i,n) == LET st == F[b[i][1]][b[i][2]] IN IF st.k = "mend" THEN (IF n = 1 THEN i ELSE Close(F,b,i+1,n-1)) ELSE IF st.k = "macro" THEN Close(F,b,i+1,n+1) ELSE Close(F,b,i+1,n)
\* level 1 statements of the definition belong to its scope
RECURSIVE Scan(_,_,_,_,_,_)
Scan(F,b,i,s,copied,t) == IF i > Len(b) THEN t ELSE
  LET f == b[i][1] st == F[f][b[i][2]] IN
  IF b[i][3] # 1 \/ st.k = "macro" THEN Scan(F,b,i+1,s,copied,t)
  ELSE Scan(F,b,i+1,s,copied,TLCEval([t EXCEPT !.occ = @ \cup Tokens(st,f,s,{"VAR","SEQ"} \cup IF copied THEN {} ELSE {"COPY"}), !.vdef = Declare(st.decl,s,f,st.l,@), !.sdef = SeqDef(@,st,s,f), !.where = @ \cup {<<f,st.l,s>>}]))
\* the definition whose MACRO statement is b[i]; copied: the body comes from a macro, copy members are in it already
Define(F,b,i,copied,t) ==
  LET e == TLCEval(Close(F,b,i,0))
      f == b[i+1][1]  p == F[f][b[i+1][2]]
      id == <<f,p.l>>
      body == TLCEval(Flat(F,TLCEval(SubSeq(b,i+2,e)),1,1,copied))
      t1 == TLCEval([t EXCEPT !.occ = @ \cup Tokens(p,f,id,{"VAR"}) \cup {<<<<"MAC",id>>,f,p.l,p.op[2],p.op[3]>>}, !.vdef = Declare(p.decl,id,f,p.l,@),
                      !.mac = {m \in @ : m[1] # p.op[1]} \cup {<<p.op[1],id>>}, !.mdef = {m \in @ : m[1] # id} \cup {<<id,f,p.l,p.op[2],b[i+1][2]>>},
                      !.bodies = {m \in @ : m[1] # id} \cup {<<id,[n \in DOMAIN body |-> <<body[n][1],body[n][2]>>]>>}, !.where = @ \cup {<<f,p.l,id>>}])
  IN [t |-> TLCEval(Scan(F,body,1,id,copied,t1)), next |-> e+1]
Lookup(T,n) == CHOOSE m \in T : m[1] = n
Has(T,n) == \E m \in T : m[1] = n
\* ---- execution: a frame is [b: statements, i: next, s: scope, m: in a macro] ----
\* the statement of the body that carries the label; labels in nested definitions belong to those
RECURSIVE Find(_,_,_,_,_)
Find(F,b,n,i,level) == LET st == F[b[i][1]][b[i][2]] IN
  IF st.k = "macro" THEN Find(F,b,n,i+1,level+1)
  ELSE IF st.k = "mend" /\ level > 0 THEN Find(F,b,n,i+1,level-1)
  ELSE IF level = 0 /\ st.seq = n THEN i ELSE Find(F,b,n,i+1,level)
Label(F,b,n) == Find(F,b,n,1,0)
LibName(n) == "LIB/" \o n
Whole(F,f) == TLCEval([n \in DOMAIN F[f] |-> <<f,n>>])
Step(F,fr,t) ==
  LET x == fr[Len(fr)]
      rest == SubSeq(fr,1,Len(fr)-1)
  IN IF x.i > Len(x.b) THEN [fr |-> rest, t |-> t] ELSE
  LET f == x.b[x.i][1]  st == F[f][x.b[x.i][2]]
      on == Append(rest,[x EXCEPT !.i = @+1])
      loadable == st.k = "call" /\ ~Has(t.mac,st.op[1]) /\ LibName(st.op[1]) \in DOMAIN F
      t0 == TLCEval(IF loadable THEN LET L == TLCEval(Whole(F,LibName(st.op[1]))) IN Define(F,L,Least({i \in DOMAIN L : F[L[i][1]][L[i][2]].k = "macro"}),FALSE,t).t ELSE t)
      opobj == IF st.k = "call" THEN (IF Has(t0.mac,st.op[1]) THEN <<"MAC",Lookup(t0.mac,st.op[1])[2]>> ELSE <<"none">>) ELSE <<"OP",st.op[1]>>
      opocc == IF st.op[1] = "" \/ opobj[1] = "none" \/ st.k \in {"macro","mend","copy"} THEN {} ELSE {<<opobj,f,st.l,st.op[2],st.op[3]>>}
      \* what any executed statement adds; variables and sequence symbols of macros are known from the definition
      unknown == opobj[1] = "none"
      t1 == TLCEval([t0 EXCEPT !.occ = @ \cup opocc \cup (IF unknown THEN {} ELSE Tokens(st,f,x.s,{"ORD"})) \cup (IF x.m \/ unknown THEN {} ELSE Tokens(st,f,Open,{"VAR","SEQ","COPY"})),
                       !.odef = IF st.sym = "" \/ Has(@,st.sym) THEN @ ELSE @ \cup {<<st.sym,f,st.l,st.val,st.attr>>},
                       !.vdef = IF x.m THEN @ ELSE Declare(st.decl,Open,f,st.l,@), !.sdef = IF x.m THEN @ ELSE SeqDef(@,st,Open,f),
                       !.where = IF x.m THEN @ ELSE @ \cup {<<f,st.l,Open>>}])
  IN CASE st.k = "comment" -> [fr |-> on, t |-> t]
       [] st.k = "macro" -> LET d == TLCEval(Define(F,x.b,x.i,x.m,t)) IN [fr |-> Append(rest,[x EXCEPT !.i = d.next]), t |-> d.t]
       [] st.k = "mend" -> [fr |-> rest, t |-> t1]
       [] st.k = "copy" -> [fr |-> IF x.m THEN on ELSE Append(on,[b |-> Whole(F,st.file), i |-> 1, s |-> Open, m |-> FALSE]), t |-> IF x.m THEN t ELSE t1]
       [] st.k = "ago" -> [fr |-> Append(rest,[x EXCEPT !.i = Label(F,x.b,st.to)]), t |-> t1]
       [] st.k = "call" /\ Has(t1.mac,st.op[1]) -> LET id == Lookup(t1.mac,st.op[1])[2] IN [fr |-> Append(on,[b |-> Lookup(t1.bodies,id)[2], i |-> 1, s |-> id, m |-> TRUE]), t |-> t1]
       [] OTHER -> [fr |-> on, t |-> t1]
Start(F) == <<[b |-> Whole(F,"OPEN"), i |-> 1, s |-> Open, m |-> FALSE]>>
\* ---- answers -------------------------------------------------------------
\* tokens of the text that are not (certainly) an occurrence of an object
Unsure(F,t) == {<<st.toks[n].k,st.toks[n].n,f,st.l,st.toks[n].c,st.toks[n].e>> : <<f,st,n>> \in UNION {{<<f,F[f][i],n>> : n \in DOMAIN F[f][i].toks} : <<f,i>> \in UNION {{<<g,i>> : i \in DOMAIN F[g]} : g \in DOMAIN F}}}
At(t,q) == {o \in t.occ : o[2] = q[1] /\ o[3] = q[2] /\ o[4] <= q[3] /\ q[3] <= o[5]}
Inner(S) == IF S = {} THEN {} ELSE LET c == Greatest({o[4] : o \in S}) IN {o \in S : o[4] = c}
RefsOf(t,ob) == {<<o[2],o[3],o[4]>> : o \in {p \in t.occ : p[1] = ob}}
\* where an object is defined: set with at most one element
DefOf(t,ob) ==
  CASE ob[1] = "VAR" -> {<<d[3],d[4],d[5]>> : d \in {e \in t.vdef : e[1] = ob[2] /\ e[2] = ob[3]}}
    [] ob[1] = "SEQ" -> {<<d[3],d[4],d[5]>> : d \in {e \in t.sdef : e[1] = ob[2] /\ e[2] = ob[3]}}
    [] ob[1] = "ORD" -> {<<d[2],d[3],0>> : d \in {e \in t.odef : e[1] = ob[2]}}
    [] ob[1] = "MAC" -> {<<d[2],d[3],d[4]>> : d \in {e \in t.mdef : e[1] = ob[2]}}
    [] ob[1] = "COPY" -> {<<LibName(ob[2]),0,0>>}
    [] OTHER -> {}
\* the text of a definition with its comments
RECURSIVE Before(_,_)
Before(L,i) == IF i >= 1 /\ L[i].k = "comment" THEN Before(L,i-1) \o L[i].text \o "\n" ELSE ""
RECURSIVE After(_,_)
After(L,i) == IF i <= Len(L) /\ L[i].k = "comment" THEN L[i].text \o "\n" \o After(L,i+1) ELSE ""
Documentation(F,t,id) == LET d == Lookup(t.mdef,id) L == F[d[2]] p == d[5] IN "```\n" \o L[p].text \o "\n" \o Before(L,p-2) \o After(L,p+1) \o "\n```\n"
\* what is offered in the operation field: every macro that has been defined
Offered(F,t) == {<<F[m[2]][m[5]].op[1],F[m[2]][m[5]].sig,Documentation(F,t,m[1])>> : m \in t.mdef}
TypeText == [A |-> "SETA variable", B |-> "SETB variable", C |-> "SETC variable", P |-> "MACRO parameter"]
=============================================================================
