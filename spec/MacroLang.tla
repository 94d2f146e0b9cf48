----------------------------- MODULE MacroLang ------------------------------
(* The macro and conditional-assembly language as a machine that executes    *)
(* one statement per step.                                                   *)
(* A program is [open: statements, libs: member name -> statements].         *)
(* Machine:                                                                  *)
(*   fr    position in open code: stack of [f,i] (open code and COPY members)*)
(*   sc    scopes: open code first, then one per active macro call           *)
(*   glob  global SET symbols, syms ordinary symbols, refs attributes found  *)
(*         by lookahead, ops operation codes, seqs open-code sequence symbols*)
(*   log   what the program logged, d diagnostics, done, ndx call counter    *)
EXTENDS CaExpr
NEST == 100   \* macro nesting
CHG == 100    \* ACTR changes in one scope
\* built-in operation codes: length of a machine instruction, -1 for conditional assembly
BuiltIn == ("ANOP" :> -1) @@ ("MEXIT" :> -1) @@ ("AGO" :> -1) @@ ("LR" :> 2) @@ ("AR" :> 2) @@ ("BAL" :> 4) @@ ("NOPR" :> 2)
Mach0 == [fr |-> <<[f |-> "", i |-> 1]>>, sc |-> <<[vars |-> <<>>, cnt |-> 4096, chg |-> 0, body |-> <<>>, lbl |-> <<>>, i |-> 1, nm |-> ""]>>,
          glob |-> <<>>, syms |-> <<>>, refs |-> <<>>, ops |-> <<>>, seqs |-> <<>>, log |-> <<>>, d |-> {}, done |-> FALSE, ndx |-> 0, n |-> 0, st |-> <<>>]
Lines(prog,f) == IF f = "" THEN prog.open ELSE prog.libs[f]
HasLib(prog,f) == f \in DOMAIN prog.libs
Top(m) == m.sc[Len(m.sc)]
InMac(m) == Len(m.sc) > 1
Env(m) == [vars |-> Top(m).vars, glob |-> m.glob, syms |-> m.syms, refs |-> m.refs]
SetEnv(m,ev) == [m EXCEPT !.sc[Len(m.sc)].vars = ev.vars, !.glob = ev.glob]
D(m,x) == [m EXCEPT !.d = @ \cup x]
\* drop finished COPY members
RECURSIVE Norm0(_,_)
Norm0(prog,fr) == IF Len(fr) > 1 /\ fr[Len(fr)].i > Len(Lines(prog,fr[Len(fr)].f)) THEN Norm0(prog,SubSeq(fr,1,Len(fr)-1)) ELSE fr
AtEnd(prog,fr) == Len(fr) = 1 /\ fr[1].i > Len(prog.open)
StmtAt(prog,fr) == Lines(prog,fr[Len(fr)].f)[fr[Len(fr)].i]
Adv(fr) == [fr EXCEPT ![Len(fr)].i = @ + 1]
InCopy(fr,f) == \E k \in DOMAIN fr : fr[k].f = f
\* ---- operation codes --------------------------------------------------------
Lookup(m,o) == IF o \in DOMAIN m.ops THEN m.ops[o] ELSE IF o \in DOMAIN BuiltIn THEN [k |-> "ins", o |-> o] ELSE [k |-> "none"]
\* ---- macro definitions ----------------------------------------------------
\* text of a COPY member as it becomes part of a macro definition
ANOP == [op |-> "anop", seq |-> ""]
\* the COPY statement itself keeps its place in the definition; positions are carried along when statements have them
CopyStmt(s) == IF "ph" \in DOMAIN s THEN [op |-> "anop", seq |-> s.seq, f |-> s.f, ph |-> s.ph, nest |-> s.nest] ELSE [ANOP EXCEPT !.seq = s.seq]
Nested(s,L) == IF "ph" \in DOMAIN s THEN [k \in DOMAIN L |-> [L[k] EXCEPT !.nest = <<[f |-> s.f, l |-> s.ph[1][1]]>> \o @]] ELSE L
RECURSIVE Expand(_,_,_)
Expand(prog,f,i) == LET L == Lines(prog,f) IN
  IF i > Len(L) THEN <<>>
  ELSE (IF L[i].op = "copy" THEN <<CopyStmt(L[i])>> \o (IF HasLib(prog,L[i].m) THEN Nested(L[i],Expand(prog,L[i].m,1)) ELSE <<>>) ELSE <<L[i]>>) \o Expand(prog,f,i+1)
\* statements from line i up to the matching MEND; nest: open MACROs. [b,i]
RECURSIVE Collect(_,_,_,_,_)
Collect(prog,L,i,nest,acc) ==
  IF i > Len(L) THEN [b |-> acc, i |-> i, ok |-> FALSE]
  ELSE LET s == L[i] IN
    IF s.op = "mend" /\ nest = 1 THEN [b |-> Append(acc,s), i |-> i+1, ok |-> TRUE]
    ELSE IF s.op = "copy" THEN Collect(prog,L,i+1,nest,acc \o <<CopyStmt(s)>> \o (IF HasLib(prog,s.m) THEN Nested(s,Expand(prog,s.m,1)) ELSE <<>>))
    ELSE Collect(prog,L,i+1,nest + (IF s.op = "macro" THEN 1 ELSE IF s.op = "mend" THEN -1 ELSE 0),Append(acc,s))
RECURSIVE Labels(_,_,_,_)
Labels(b,i,nest,acc) ==  \* sequence symbols of the definition itself, not of nested definitions
  IF i > Len(b) THEN acc
  ELSE LET s == b[i]
           a == IF nest = 0 /\ s.seq # "" THEN IF s.seq \in DOMAIN acc.l THEN [acc EXCEPT !.dup = TRUE] ELSE [acc EXCEPT !.l = (s.seq :> i) @@ @] ELSE acc
       IN Labels(b,i+1,nest + (IF s.op = "macro" THEN 1 ELSE IF s.op = "mend" /\ nest > 0 THEN -1 ELSE 0),a)
RECURSIVE CopyMissing(_,_)
CopyMissing(prog,L) == \E i \in DOMAIN L : L[i].op = "copy" /\ (~HasLib(prog,L[i].m) \/ CopyMissing(prog,prog.libs[L[i].m]))
RECURSIVE CopyUsed(_,_)
CopyUsed(prog,L) == UNION {IF HasLib(prog,L[i].m) THEN {L[i].m} \cup CopyUsed(prog,prog.libs[L[i].m]) ELSE {} : i \in {j \in DOMAIN L : L[j].op = "copy"}}
\* conditional-assembly operation codes keep, inside a definition, the meaning they have when it is read
Freeze(m,s) == IF s.op # "call" THEN s ELSE IF Len(s.o) # 1 \/ s.o[1].t # "s" THEN s
  ELSE LET w == Lookup(m,Upper(s.o[1].s)) IN IF w.k = "ins" THEN (IF BuiltIn[w.o] = -1 THEN [s EXCEPT !.o = <<[t |-> "frozen", s |-> w.o]>>] ELSE s) ELSE s
\* defines the macro whose MACRO statement is line i of L; [m,i]
DefMacro(prog,m,L,i) ==
  LET c == Collect(prog,L,i+2,1,<<>>) p == L[i+1] lb == Labels(c.b,1,0,[l |-> <<>>, dup |-> FALSE])
      def == [n |-> p.n, lab |-> p.lab, par |-> p.par, body |-> [k \in DOMAIN c.b |-> Freeze(m,c.b[k])], lbl |-> lb.l]
      m1 == [m EXCEPT !.ops = (p.n :> [k |-> "mac", m |-> def]) @@ @, !.d = @ \cup (IF lb.dup THEN {"E044"} ELSE {}) \cup (IF CopyMissing(prog,SubSeq(L,i+2,c.i-1)) THEN {"E058"} ELSE {})]
      \* whether a member being copied may be copied again by a definition read meanwhile is left open
      open == \E x \in CopyUsed(prog,SubSeq(L,i+2,c.i-1)) : InCopy(m.fr,x)
  IN [m |-> IF open THEN [m1 EXCEPT !.n = -1] ELSE m1, i |-> c.i]
\* an unknown operation code is looked up in the libraries
Fetch(prog,m,o) ==
  IF Lookup(m,o).k # "none" \/ ~HasLib(prog,o) THEN m
  ELSE LET L == prog.libs[o] IN
    IF L = <<>> THEN m ELSE IF L[1].op # "macro" THEN D(m,{"E059"}) ELSE IF L[2].n # o THEN D(m,{"E060"}) ELSE DefMacro(prog,m,L,1).m
\* ---- macro calls --------------------------------------------------------------
RECURSIVE ArgText(_,_)
ArgText(env,a) == IF a.t = "omit" THEN Val("") ELSE IF a.t = "var" THEN (LET r == VarVal(env,a) IN With(VarText(r),r)) ELSE Text(env,a.p,1)
RECURSIVE SubArg(_,_)
RECURSIVE SubArgs(_,_,_)
SubArgs(env,x,i) == IF i > Len(x) THEN Val(<<>>) ELSE LET h == SubArg(env,x[i]) t == SubArgs(env,x,i+1) IN With([t EXCEPT !.v = <<h.v>> \o @],h)
SubArg(env,a) == IF a.t = "sub" THEN LET r == SubArgs(env,a.x,1) IN [r EXCEPT !.v = Comp(@)]
                 ELSE LET r == ArgText(env,a) IN [r EXCEPT !.v = Sing(@)]
Arg(env,a) == IF a.t = "var" THEN LET r == ArgText(env,a) IN [r EXCEPT !.v = ToData(@)] ELSE SubArg(env,a)
KeyArg(env,a) == IF a.t = "sub" THEN SubArg(env,a) ELSE LET r == ArgText(env,a) IN [r EXCEPT !.v = ToData(@)]
Keys(def) == {def.par[i].n : i \in {j \in DOMAIN def.par : def.par[j].k = "k"}}
RECURSIVE ArgsOf(_,_,_,_,_)
\* [pos: positional data, key: name -> data, d, u]
ArgsOf(env,def,x,i,acc) ==
  IF i > Len(x) THEN acc
  ELSE LET a == x[i] IN ArgsOf(env,def,x,i+1,
    IF a.t = "key" THEN
      IF Upper(a.n) \notin Keys(def) THEN [acc EXCEPT !.pos = Append(@,Sing(a.n \o "=" \o DVal(SubArg(env,a.a).v))), !.d = @ \cup {"W013"} \cup SubArg(env,a.a).d, !.u = @ \/ SubArg(env,a.a).u]
      ELSE LET r == KeyArg(env,a.a) q == [acc EXCEPT !.d = @ \cup r.d, !.u = @ \/ r.u] IN
           IF Upper(a.n) \in DOMAIN acc.key THEN [q EXCEPT !.d = @ \cup {"E011"}] ELSE [q EXCEPT !.key = (Upper(a.n) :> r.v) @@ @]
    ELSE LET r == Arg(env,a) IN [acc EXCEPT !.pos = Append(@,r.v), !.d = @ \cup r.d, !.u = @ \/ r.u])
Pad4(n) == LET s == ToString(n) IN IF Len(s) >= 4 THEN s ELSE RepStr("0",4-Len(s)) \o s
Par(d) == [k |-> "par", d |-> d]
SysSet(ty,v) == [k |-> "set", ty |-> ty, sc |-> TRUE, v |-> (1 :> v)]
Frame(def,lab,ar,ndx,sc) ==
  LET P == {j \in DOMAIN def.par : def.par[j].k \in {"p","o"}}
      Rank(j) == Cardinality({k \in P : k <= j})
      pv == [n \in {def.par[j].n : j \in {k \in P : def.par[k].k = "p"}} |->
              LET j == CHOOSE k \in P : def.par[k].k = "p" /\ def.par[k].n = n IN Par(IF Rank(j) <= Len(ar.pos) THEN ar.pos[Rank(j)] ELSE Empty)]
      kv == [n \in Keys(def) |-> Par(IF n \in DOMAIN ar.key THEN ar.key[n] ELSE def.par[CHOOSE k \in DOMAIN def.par : def.par[k].k = "k" /\ def.par[k].n = n].d)]
      lv == IF def.lab = "" THEN <<>> ELSE (def.lab :> Par(lab))
      sv == ("SYSLIST" :> [k |-> "sys", d |-> Comp(<<lab>> \o ar.pos)]) @@ ("SYSNDX" :> SysSet("C",Pad4(ndx)))
            @@ ("SYSNEST" :> SysSet("A",Len(sc)))
            @@ ("SYSMAC" :> [k |-> "sys", d |-> Comp(<<Sing(def.n)>> \o [i \in 1..Len(sc) |-> Sing(IF i = Len(sc) THEN "OPEN CODE" ELSE sc[Len(sc)+1-i].nm)])])
  IN [vars |-> pv @@ kv @@ lv @@ sv, cnt |-> 4096, chg |-> 0, body |-> def.body, lbl |-> def.lbl, i |-> 1, nm |-> def.n]
\* ---- attribute references of a statement ----------------------------------------
RECURSIVE LA(_,_)
LAs(env,x) == UNION {LA(env,x[i]) : i \in DOMAIN x}
LA(env,e) ==
  CASE e.t = "sattr" -> IF e.a = "D" THEN {} ELSE {e.s}
    [] e.t = "attr" -> LAs(env,e.x.ix) \cup LAs(env,e.x.p) \cup
         (IF e.a # "T" \/ LAs(env,e.x.ix) # {} THEN {} ELSE LET r == VarVal(env,e.x) IN IF r.ty = "C" /\ IsSymbol(r.v) THEN {Upper(r.v)} ELSE {})
    [] e.t = "var" -> LAs(env,e.ix) \cup LAs(env,e.p)
    [] e.t = "str" -> LAs(env,e.p) \cup LAs(env,e.dup) \cup LAs(env,e.sub)
    [] e.t \in {"list","cat"} -> LAs(env,e.x)
    [] e.t = "fn" -> LAs(env,e.x) \cup LAs(env,e.dup)
    [] e.t = "ar" -> UNION {LA(env,e.x[i]) : i \in {j \in DOMAIN e.x : j % 2 = 1}}
    [] e.t \in {"neg","pos"} -> LA(env,e.x)
    [] OTHER -> {}
RECURSIVE ArgLA(_,_)
ArgLA(env,a) == CASE a.t = "var" -> LA(env,a) [] a.t = "txt" -> LAs(env,a.p) [] a.t = "sub" -> UNION {ArgLA(env,a.x[i]) : i \in DOMAIN a.x}
                  [] a.t = "key" -> ArgLA(env,a.a) [] OTHER -> {}
StmtLA(env,s) ==
  CASE s.op = "log" -> LA(env,s.e)
    [] s.op = "set" -> LA(env,s.v) \cup LAs(env,s.x)
    [] s.op = "aif" -> UNION {LA(env,s.x[i].c) : i \in DOMAIN s.x}
    [] s.op = "ago" -> LAs(env,s.e)
    [] s.op = "actr" -> LA(env,s.e)
    [] s.op = "call" -> (IF s.o[1].t = "frozen" THEN {} ELSE LAs(env,s.o)) \cup LAs(env,s.lab) \cup UNION {ArgLA(env,s.args[i]) : i \in DOMAIN s.args}
    [] OTHER -> {}
\* ---- lookahead --------------------------------------------------------------------
Reg(m,fr,l) == IF l = "" THEN m ELSE IF l \notin DOMAIN m.seqs THEN [m EXCEPT !.seqs = (l :> fr) @@ @]
               ELSE IF m.seqs[l] # fr THEN D(m,{"E045"}) ELSE m
\* attributes a passed statement gives to its label
PassedAttr(m,s) ==
  IF s.op = "ord" THEN [ty |-> s.ty, len |-> s.len]
  ELSE LET w == IF Len(s.o) = 1 /\ s.o[1].t = "s" THEN Lookup(m,Upper(s.o[1].s)) ELSE [k |-> "none"] IN
    IF w.k = "ins" THEN (IF BuiltIn[w.o] = -1 THEN [ty |-> "U", len |-> -1] ELSE [ty |-> "I", len |-> BuiltIn[w.o]]) ELSE [ty |-> "M", len |-> -1]
OrdLabel(s) == IF s.op = "ord" THEN s.n ELSE IF s.op = "call" /\ Len(s.lab) = 1 /\ s.lab[1].t = "s" THEN s.lab[1].s ELSE ""
\* passes over the source from position fr: want = "" and names N: until all of N were seen; else until label want
RECURSIVE Scan(_,_,_,_,_,_)
Scan(prog,m,fr0,want,N,nest) ==
  LET fr == Norm0(prog,fr0) IN
  IF AtEnd(prog,fr) THEN [m EXCEPT !.refs = @ @@ [x \in N |-> [ty |-> "U", len |-> -1]]]
  ELSE LET s == StmtAt(prog,fr) IN
    IF s.op = "proto" THEN Scan(prog,m,Adv(fr),want,N,nest)
    ELSE IF nest > 0 THEN Scan(prog,m,Adv(fr),want,N,nest + (IF s.op = "macro" THEN 1 ELSE IF s.op = "mend" THEN -1 ELSE 0))
    ELSE LET m1 == Reg(m,fr,s.seq)
             l == OrdLabel(s)
             m2 == IF l = "" THEN m1 ELSE [m1 EXCEPT !.refs = @ @@ (l :> PassedAttr(m,s))]
             N2 == N \ {l} IN
      IF want # "" /\ s.seq = want THEN m2
      ELSE IF want = "" /\ N2 = {} THEN m2
      ELSE IF s.op = "macro" THEN Scan(prog,m2,Adv(fr),want,N2,1)
      ELSE IF s.op = "copy" /\ HasLib(prog,s.m) /\ ~InCopy(fr,s.m) THEN Scan(prog,m2,Append(Adv(fr),[f |-> s.m, i |-> 1]),want,N2,0)
      ELSE Scan(prog,m2,Adv(fr),want,N2,0)
\* ---- branches ------------------------------------------------------------------------
Dec(m) == [m EXCEPT !.sc[Len(m.sc)].cnt = @ - 1]
Jump(prog,m,t) ==
  IF InMac(m) THEN IF t \in DOMAIN Top(m).lbl THEN Dec([m EXCEPT !.sc[Len(m.sc)].i = Top(m).lbl[t]]) ELSE D(m,{"E047"})
  ELSE LET m1 == IF t \in DOMAIN m.seqs THEN m ELSE Scan(prog,m,m.fr,t,{},0) IN
       IF t \in DOMAIN m1.seqs THEN Dec([m1 EXCEPT !.fr = m1.seqs[t]]) ELSE D(m1,{"E047"})
RECURSIVE FirstTrue(_,_,_)
FirstTrue(env,x,i) == IF i > Len(x) THEN [t |-> "", d |-> {}, u |-> FALSE]
  ELSE LET c == Eval(env,x[i].c,"B") IN IF c.v = 1 THEN [t |-> x[i].t, d |-> c.d, u |-> c.u]
       ELSE LET r == FirstTrue(env,x,i+1) IN [r EXCEPT !.d = @ \cup c.d, !.u = @ \/ c.u]
\* ---- statements -----------------------------------------------------------------------
Pop(m) == [m EXCEPT !.sc = SubSeq(@,1,Len(@)-1)]
RECURSIVE PopAll(_)
PopAll(m) == IF InMac(m) THEN PopAll(Pop(m)) ELSE m
RECURSIVE DclAll(_,_,_,_,_)
DclAll(m,x,i,ty,g) == IF i > Len(x) THEN m
  ELSE LET r == Declare(Env(m),Upper(x[i].n),ty,x[i].sc,g) IN DclAll(D(SetEnv(m,r.env),r.d),x,i+1,ty,g)
RECURSIVE EvalAll(_,_,_,_)
EvalAll(env,x,i,k) == IF i > Len(x) THEN Val(<<>>)
  ELSE LET h == Eval(env,x[i],k) t == EvalAll(env,x,i+1,k) IN With([t EXCEPT !.v = <<h.v>> \o @],h)
SetStmt(m,s) ==
  LET env == Env(m) n == Name(env,s.v) ix == EvalSubs(env,s.v.ix,1) m0 == D(m,n.d \cup ix.d) IN
  IF n.v = "" THEN [m0 EXCEPT !.n = -1]   \* not modelled
  ELSE LET e == AssignErr(env,n.v,ix.v,s.k) IN
    IF e # "" THEN D(m0,{e})
    ELSE LET e1 == IF Has(env,n.v) THEN env ELSE [env EXCEPT !.vars = (n.v :> NewSet(s.k,ix.v = <<>>)) @@ @]
             x == SelectSeq(s.x,LAMBDA y : y.t # "omit")
             m1 == SetEnv(m0,e1) IN
         IF x = <<>> THEN D(m1,{"E022"})
         ELSE LET vs == EvalAll(e1,x,1,s.k) IN
              IF vs.u \/ ix.u \/ n.u THEN [m1 EXCEPT !.n = -1] ELSE D(SetEnv(m1,AssignTo(e1,n.v,ix.v,s.k,vs.v)),vs.d)
Define(m,l,a) == IF l = "" THEN m ELSE IF l \in DOMAIN m.syms THEN D(m,{"E031"}) ELSE [m EXCEPT !.syms = (l :> a) @@ @]
\* a statement with an undefined operation code is ignored, its label included
CallStmt(prog,m,s,here) ==
  LET env == Env(m) fz == Len(s.o) = 1 /\ s.o[1].t = "frozen"
      o == IF fz THEN Val(s.o[1].s) ELSE Text(env,s.o,1) nm == Upper(o.v)
      m2 == IF fz THEN m ELSE D(Fetch(prog,m,nm),o.d) w == IF fz THEN [k |-> "ins", o |-> nm] ELSE Lookup(m2,nm)
      m1 == IF InMac(m2) \/ w.k = "none" \/ (w.k = "ins" /\ w.o = "MEXIT") THEN m2 ELSE Reg(m2,here,s.seq) IN
  IF o.u THEN [m EXCEPT !.n = -1]
  ELSE CASE w.k = "none" -> D(m1,{"E049"})
    [] w.k = "ins" ->
       (LET lb == Text(env,s.lab,1).v IN
       CASE w.o = "MEXIT" -> IF InMac(m1) THEN Pop(m1) ELSE D(m1,{"E054"})
         [] w.o = "ANOP" -> IF lb # "" THEN D(m1,{"W010"}) ELSE m1
         [] w.o = "AGO" -> (LET t == s.args[1].p[1].s IN Jump(prog,m1,Upper(SubSeq(t,2,Len(t)))))
         [] OTHER -> Define(m1,lb,[ty |-> "I", len |-> BuiltIn[w.o]]))
    [] w.k = "mac" ->
       LET lb == Text(env,s.lab,1) ar == ArgsOf(env,w.m,s.args,1,[pos |-> <<>>, key |-> <<>>, d |-> {}, u |-> FALSE]) IN
       IF lb.u \/ ar.u THEN [m EXCEPT !.n = -1]
       ELSE [D(m1,lb.d \cup ar.d) EXCEPT !.sc = Append(@,Frame(w.m,IF s.lab = <<>> THEN Empty ELSE Sing(lb.v),ar,m1.ndx,m1.sc)), !.ndx = @ + 1]
\* executes statement s; the position is already behind it
Exec(prog,m,s,here,L,i) ==
  LET m0 == IF InMac(m) THEN m ELSE IF s.op \in {"mend","mexit","call"} THEN m ELSE Reg(m,here,s.seq) env == Env(m) IN
  CASE s.op = "anop" -> m0
    [] s.op = "log" -> LET r == Eval(env,s.e,"C") IN IF r.u THEN [m0 EXCEPT !.n = -1] ELSE [D(m0,r.d) EXCEPT !.log = Append(@,r.v), !.st = Append(@,Len(m0.sc))]
    [] s.op = "set" -> SetStmt(m0,s)
    [] s.op = "dcl" -> DclAll(m0,s.x,1,s.k,s.g)
    [] s.op = "ago" -> IF s.e = <<>> THEN Jump(prog,m0,s.t[1])
                       ELSE LET r == Eval(env,s.e[1],"A") IN IF r.u THEN [m0 EXCEPT !.n = -1]
                            ELSE IF r.v >= 1 /\ r.v <= Len(s.t) THEN Jump(prog,D(m0,r.d),s.t[r.v]) ELSE D(m0,r.d)
    [] s.op = "aif" -> LET r == FirstTrue(env,s.x,1) IN IF r.u THEN [m0 EXCEPT !.n = -1] ELSE IF r.t # "" THEN Jump(prog,D(m0,r.d),r.t) ELSE D(m0,r.d)
    [] s.op = "actr" -> LET r == Eval(env,s.e,"A") IN IF r.u THEN [m0 EXCEPT !.n = -1]
                        ELSE [D(m0,r.d) EXCEPT !.sc[Len(m0.sc)].cnt = r.v, !.sc[Len(m0.sc)].chg = @ + 1]
    [] s.op = "mexit" -> IF InMac(m0) THEN Pop(m0) ELSE D(m0,{"E054"})
    [] s.op = "mend" -> IF InMac(m0) THEN m0 ELSE D(m0,{"E054"})
    [] s.op = "macro" -> LET r == DefMacro(prog,m0,L,i) IN
                         IF InMac(m0) THEN [r.m EXCEPT !.sc[Len(m0.sc)].i = r.i] ELSE [r.m EXCEPT !.fr[Len(m0.fr)].i = r.i]
    [] s.op = "copy" -> IF ~HasLib(prog,s.m) THEN D(m0,{"E058"}) ELSE IF InCopy(m0.fr,s.m) THEN D(m0,{"E062"})
                        ELSE [m0 EXCEPT !.fr = Append(@,[f |-> s.m, i |-> 1])]
    [] s.op = "call" -> CallStmt(prog,m0,s,here)
    [] s.op = "opsyn" -> IF s.o = "" THEN (IF Lookup(m0,s.n).k = "none" THEN D(m0,{"E049"}) ELSE [m0 EXCEPT !.ops = (s.n :> [k |-> "none"]) @@ @])
                         ELSE LET w == Lookup(m0,s.o) IN IF w.k = "none" THEN D(m0,{"A246"}) ELSE [m0 EXCEPT !.ops = (s.n :> w) @@ @]
    [] s.op = "ord" -> Define(m0,s.n,[ty |-> s.ty, len |-> s.len])
Fatal(m) == IF Len(m.sc) > NEST THEN "E055" ELSE IF Top(m).cnt < 0 THEN "E056" ELSE IF Top(m).chg > CHG THEN "E063" ELSE ""
\* both limits are reported by the same code
DoFatal(m,c) == LET m1 == D(m,{IF c = "E056" THEN "E055" ELSE c}) IN
  IF c = "E055" THEN PopAll(m1) ELSE IF c = "E056" /\ InMac(m) THEN Pop(m1) ELSE [m1 EXCEPT !.done = TRUE]
Step(prog,m0) ==
  LET m1 == [m0 EXCEPT !.n = @ + 1] IN
  IF InMac(m1) THEN
    LET t == Top(m1) IN
    IF t.i > Len(t.body) THEN Pop(m1)
    ELSE LET s == t.body[t.i]
             N == StmtLA(Env(m1),s) \ (DOMAIN m1.syms \cup DOMAIN m1.refs)
             m2 == IF N = {} THEN m1 ELSE Scan(prog,m1,m1.fr,"",N,0)
             m3 == [m2 EXCEPT !.sc[Len(m2.sc)].i = @ + 1]
             c == Fatal(m3) IN
         IF c # "" THEN DoFatal(m3,c) ELSE Exec(prog,m3,s,<<>>,t.body,t.i)
  ELSE
    LET fr == Norm0(prog,m1.fr) IN
    IF AtEnd(prog,fr) THEN [m1 EXCEPT !.done = TRUE]
    ELSE LET s == StmtAt(prog,fr)
             N == StmtLA(Env(m1),s) \ (DOMAIN m1.syms \cup DOMAIN m1.refs)
             m2 == IF N = {} THEN m1 ELSE Scan(prog,m1,Adv(fr),"",N,0)
             m3 == [m2 EXCEPT !.fr = Adv(fr)]
             c == Fatal(m3) IN
         IF c # "" THEN DoFatal(m3,c) ELSE Exec(prog,m3,s,fr,Lines(prog,fr[Len(fr)].f),fr[Len(fr)].i)
=============================================================================
