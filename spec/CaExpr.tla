------------------------------- MODULE CaExpr -------------------------------
(* Conditional assembly expressions.  Expr values are records with field t;  *)
(* Eval(env,e,k) yields [v,d,u]: the value in context k ("A","B","C"), the   *)
(* set of diagnostic codes and u=TRUE when the language leaves the result    *)
(* open.  Booleans are 0/1.                                                  *)
EXTENDS HVars
MAXSTR == 4064
Val(v) == [v |-> v, d |-> {}, u |-> FALSE]
Err(v,c) == [v |-> v, d |-> {c}, u |-> FALSE]
Open(v) == [v |-> v, d |-> {}, u |-> TRUE]
With(r,x) == [r EXCEPT !.d = @ \cup x.d, !.u = @ \/ x.u]
Bool(b) == IF b THEN 1 ELSE 0
\* ---- built-in functions ----------------------------------------------------
FB2A(s) == IF s = "" THEN Val(0) ELSE IF Len(s) <= 32 /\ AllIn(s,{"0","1"}) THEN Val(OfBin(s)) ELSE Err(0,"CE007")
FX2A(s) == IF s = "" THEN Val(0) ELSE IF Len(s) <= 8 /\ AllIn(s,HexSet) THEN Val(OfHex(s)) ELSE Err(0,"CE007")
FC2A(s) == IF s = "" THEN Val(0) ELSE IF Len(s) > 4 THEN Err(0,"CE007")
           ELSE IF ~AllIn(s,CharSet) THEN Open(0)
           ELSE LET c == [i \in 1..4 |-> IF i > 4-Len(s) THEN Code[Ch(s,i-(4-Len(s)))] ELSE 0]
                IN Val(Combine(c[1]*256+c[2], c[3]*256+c[4]))
FD2A(s) == IF s = "" THEN Val(0) ELSE IF Len(s) > 11 THEN Err(0,"CE007")
           ELSE LET neg == Ch(s,1) = "-"  t == IF Ch(s,1) \in {"+","-"} THEN Tail(s) ELSE s IN
                IF t = "" \/ ~AllIn(t,DigitSet) THEN Err(0,"CE007")
                ELSE IF neg /\ t \in {"2147483648","02147483648"} THEN Val(MINI)
                ELSE LET n == DecVal(t,Len(t)) IN IF n < 0 THEN Err(0,"CE007") ELSE Val(IF neg THEN -n ELSE n)
SDT(k,s) == CASE k = "B" -> FB2A(s) [] k = "X" -> FX2A(s) [] k = "C" -> FC2A(s) [] k = "D" -> FD2A(s)
\* a character value used as a number
SdtText(s) ==
  IF Len(s) >= 3 /\ Ch(s,2) = "'" /\ Ch(s,Len(s)) = "'" THEN
    IF Len(s) = 3 THEN Err(0,"CE015")
    ELSE IF Upper(Ch(s,1)) \in {"B","C","D","X"} THEN SDT(Upper(Ch(s,1)),SubSeq(s,3,Len(s)-1)) ELSE Err(0,"CE015")
  ELSE FD2A(s)
\* doubled quotes and ampersands count once
RECURSIVE Undouble(_,_)
Undouble(s,i) == IF i > Len(s) THEN ""
  ELSE LET c == Ch(s,i) IN IF c \in {"'","&"} /\ i < Len(s) /\ Ch(s,i+1) = c THEN c \o Undouble(s,i+2) ELSE c \o Undouble(s,i+1)
Doubled(s) == Join([i \in 1..(Len(s)) |-> IF Ch(s,i) \in {"'","&"} THEN Ch(s,i) \o Ch(s,i) ELSE Ch(s,i)],1,Len(s))
Dequote(s) == LET a == IF s # "" /\ Ch(s,1) = "'" THEN Tail(s) ELSE s IN IF a # "" /\ Ch(a,Len(a)) = "'" THEN SubSeq(a,1,Len(a)-1) ELSE a
BytesOf(v) == <<ByteOf(v,3),ByteOf(v,2),ByteOf(v,1),ByteOf(v,0)>>
CharsOf(b) == IF \E i \in DOMAIN b : b[i] \notin CodeSet THEN Open("") ELSE Val(Join([i \in 1..(Len(b)) |-> Decode[b[i]]],1,Len(b)))
A2D(v) == IF v < 0 THEN ToString(v) ELSE "+" \o ToString(v)
Hex2(n) == Ch(HexU,(n \div 16) + 1) \o Ch(HexU,(n % 16) + 1)
Bin8(n) == Join([i \in 1..(8) |-> ToString((n \div (2^(8-i))) % 2)],1,8)
Bin4(c) == LET n == DigVal[c] IN Join([i \in 1..(4) |-> ToString((n \div (2^(4-i))) % 2)],1,4)
PadTo(s,n) == LET r == Len(s) % n IN IF r = 0 THEN s ELSE RepStr("0",n-r) \o s
BinNum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1]*2 + (IF Ch(s,i)="1" THEN 1 ELSE 0) IN F[Len(s)]
ConvA(r,F(_)) == IF r.d # {} THEN [r EXCEPT !.v = ""] ELSE [r EXCEPT !.v = F(r.v)]
MapD(r) == IF r.d # {} \/ r.u THEN [r EXCEPT !.v = ""] ELSE CharsOf(BytesOf(r.v))
FnC(f,s) ==   \* functions of a character argument
  CASE f = "B2A" -> FB2A(s) [] f = "C2A" -> FC2A(s) [] f = "D2A" -> FD2A(s) [] f = "X2A" -> FX2A(s)
    [] f = "DCLEN" -> Val(Len(Undouble(s,1)))
    [] f = "ISBIN" -> IF s = "" THEN Err(0,"CE007") ELSE Val(Bool(Len(s) <= 32 /\ AllIn(s,{"0","1"})))
    [] f = "ISDEC" -> IF s = "" THEN Err(0,"CE007") ELSE Val(Bool(Len(s) <= 10 /\ AllIn(s,DigitSet) /\ DecVal(s,Len(s)) >= 0))
    [] f = "ISHEX" -> IF s = "" THEN Err(0,"CE007") ELSE Val(Bool(Len(s) <= 8 /\ AllIn(s,HexSet)))
    [] f = "ISSYM" -> IF s = "" THEN Err(0,"CE007") ELSE Val(Bool(IsSymbol(s)))
    [] f = "B2C" -> IF s = "" THEN Val("") ELSE IF ~AllIn(s,{"0","1"}) THEN Err("","CE007")
                    ELSE LET p == PadTo(s,8) IN CharsOf([i \in 1..(Len(p) \div 8) |-> BinNum(SubSeq(p,8*i-7,8*i))])
    [] f = "B2D" -> ConvA(FB2A(s),A2D)
    [] f = "B2X" -> IF s = "" THEN Val("") ELSE IF ~AllIn(s,{"0","1"}) THEN Err("","CE007")
                    ELSE LET p == PadTo(s,4) IN Val(Join([i \in 1..(Len(p) \div 4) |-> Ch(HexU,BinNum(SubSeq(p,4*i-3,4*i))+1)],1,Len(p) \div 4))
    [] f = "C2B" -> IF ~AllIn(s,CharSet) THEN Open("") ELSE IF Len(s)*8 > MAXSTR THEN Err("","CE007") ELSE Val(Join([i \in 1..(Len(s)) |-> Bin8(Code[Ch(s,i)])],1,Len(s)))
    [] f = "C2D" -> ConvA(FC2A(s),A2D)
    [] f = "C2X" -> IF ~AllIn(s,CharSet) THEN Open("") ELSE IF Len(s)*2 > MAXSTR THEN Err("","CE007") ELSE Val(Join([i \in 1..(Len(s)) |-> Hex2(Code[Ch(s,i)])],1,Len(s)))
    [] f = "D2B" -> IF s = "" THEN Val("") ELSE ConvA(FD2A(s),BinOf)
    [] f = "D2C" -> IF s = "" THEN Err("","CE007") ELSE MapD(FD2A(s))
    [] f = "D2X" -> IF s = "" THEN Err("","CE007") ELSE ConvA(FD2A(s),HexOf)
    [] f = "DCVAL" -> Val(Undouble(s,1))
    [] f = "DEQUOTE" -> Val(Dequote(s))
    [] f = "DOUBLE" -> LET r == Doubled(s) IN IF Len(r) > MAXSTR THEN Err("","CE007") ELSE Val(r)
    [] f = "LOWER" -> Val(Lower(s)) [] f = "UPPER" -> Val(Upper(s))
    [] f = "X2B" -> IF ~AllIn(s,HexSet) \/ Len(s)*4 > MAXSTR THEN Err("","CE007") ELSE Val(Join([i \in 1..(Len(s)) |-> Bin4(Ch(s,i))],1,Len(s)))
    [] f = "X2C" -> IF s = "" THEN Val("") ELSE IF ~AllIn(s,HexSet) THEN Err("","CE007")
                    ELSE LET p == PadTo(s,2) IN CharsOf([i \in 1..(Len(p) \div 2) |-> DigVal[Ch(p,2*i-1)]*16 + DigVal[Ch(p,2*i)]])
    [] f = "X2D" -> ConvA(FX2A(s),A2D)
FnA(f,v) ==   \* functions of an arithmetic argument
  CASE f = "A2B" -> Val(BinOf(v)) [] f = "A2C" -> CharsOf(BytesOf(v)) [] f = "A2D" -> Val(A2D(v)) [] f = "A2X" -> Val(HexOf(v))
    [] f = "BYTE" -> IF v < 0 \/ v > 255 THEN Err("","CE007") ELSE CharsOf(<<v>>)
    [] f = "SIGNED" -> Val(ToString(v))
ArithFns == {"B2A","C2A","D2A","X2A","DCLEN","ISBIN","ISDEC","ISHEX","ISSYM","FIND","INDEX"}
FnOfA == {"A2B","A2C","A2D","A2X","BYTE","SIGNED"}
\* ---- operators ---------------------------------------------------------------
Ov(o,v) == IF o = 1 THEN Err(0,"CE013") ELSE IF o = -1 THEN Err(0,"CE014") ELSE Val(v)
Arith(op,a,b) ==
  CASE op = "+" -> LET o == AddOv(a,b) IN Ov(o, IF o = 0 THEN a+b ELSE 0)
    [] op = "-" -> LET o == SubOv(a,b) IN Ov(o, IF o = 0 THEN a-b ELSE 0)
    [] op = "*" -> LET o == MulOv(a,b) IN Ov(o, IF o = 0 THEN a*b ELSE 0)
    [] op = "/" -> IF b = 0 THEN Val(0) ELSE IF a = MINI /\ b = -1 THEN Err(0,"CE013") ELSE Val(TruncDiv(a,b))
Rel == {"EQ","NE","LE","LT","GE","GT"}
RelOp(op,c) == Bool(CASE op="EQ" -> c=0 [] op="NE" -> c#0 [] op="LE" -> c<=0 [] op="LT" -> c<0 [] op="GE" -> c>=0 [] op="GT" -> c>0)
CmpInt(a,b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
\* binding strength: larger binds looser
Prio(k,op) == IF k = "B" THEN CASE op \in Rel -> 0 [] op = "NOT" -> 1 [] op = "AND" -> 2 [] op = "OR" -> 3 [] op = "XOR" -> 4
              ELSE CASE op \in {"FIND","INDEX"} -> 0 [] op = "NOT" -> 1 [] op \in {"AND","OR","XOR"} -> 2 [] op \in {"SLA","SLL","SRA","SRL"} -> 3
                     [] op \in {"UPPER","LOWER","DOUBLE","BYTE","SIGNED"} -> 1
Unary == {"NOT","UPPER","LOWER","DOUBLE","BYTE","SIGNED"}
IsCharExpr(e) == CASE e.t = "str" -> e.dup = <<>> [] e.t = "cat" -> (e.x[1].t = "str" /\ e.x[1].dup = <<>>) [] e.t \in {"attr","sattr"} -> e.a \in {"T","O"} [] OTHER -> FALSE
\* attributes of an ordinary symbol: its definition, else the one found by lookahead; len = -1: no length
SymAttr(env,n) == IF n \in DOMAIN env.syms THEN env.syms[n] ELSE IF n \in DOMAIN env.refs THEN env.refs[n] ELSE [ty |-> "U", len |-> -1]
\* T' of a character value: self-defining or empty; symbols are looked up in env.syms
TypeOf(env,s) == IF s = "" THEN Val("O") ELSE IF \E i \in 1..Len(s) : Ch(s,i) \in {"+","-","*","/","(",")","."} THEN Open("U")
                 ELSE IF SdtText(s).d = {} THEN Val("N")
                 ELSE Val(SymAttr(env,Upper(s)).ty)
RECURSIVE FirstOf(_)
FirstOf(d) == IF d.m = "s" THEN d.v ELSE IF d.x = <<>> THEN "" ELSE FirstOf(d.x[1])
TypeAttr(env,n,s) ==
  LET c == VRead(env,n,s) IN
  IF c.ty = "U" THEN [v |-> "U", d |-> c.d, u |-> FALSE] ELSE IF c.ty # "C" THEN Val("N")
  ELSE LET w == Get(env,n) IN
       TypeOf(env, IF w.k = "set" THEN c.v ELSE FirstOf(IF w.k = "par" THEN DAt(w.d,s,1) ELSE SysAt(w.d,s)))
RECURSIVE Eval(_,_,_)
RECURSIVE EvalSubs(_,_,_)
RECURSIVE Name(_,_)
RECURSIVE Text(_,_,_)
RECURSIVE ListEval(_,_,_)
RECURSIVE MulEval(_,_,_,_)
RECURSIVE AddEval(_,_,_,_)
RECURSIVE Concat(_,_,_)
\* subscripts: [v: sequence of integers, d, u]
EvalSubs(env,x,i) == IF i > Len(x) THEN Val(<<>>)
                     ELSE LET h == Eval(env,x[i],"A") t == EvalSubs(env,x,i+1) IN With([t EXCEPT !.v = <<h.v>> \o @],h)
\* the name of a variable symbol, possibly created from text
Name(env,e) == IF e.p = <<>> THEN Val(Upper(e.n))
               ELSE LET r == Text(env,e.p,1) IN IF IsSymbol(r.v) THEN [r EXCEPT !.v = Upper(@)] ELSE [r EXCEPT !.v = "", !.d = @ \cup {"E065"}]
VarVal(env,e) ==  \* [ty,v,d,u]
  LET n == Name(env,e) s == EvalSubs(env,e.ix,1)
      r == IF n.v = "" THEN [ty |-> "U", v |-> "", d |-> {"E010"}] ELSE VRead(env,n.v,s.v)
  IN [ty |-> r.ty, v |-> r.v, d |-> r.d \cup n.d \cup s.d, u |-> n.u \/ s.u]
VarText(r) == CASE r.ty = "A" -> IF r.v = MINI THEN Open("") ELSE Val(ToString(IF r.v < 0 THEN -r.v ELSE r.v))
                [] r.ty = "B" -> Val(ToString(r.v)) [] r.ty = "C" -> Val(r.v) [] OTHER -> Val("")
\* text with substituted variable symbols
Text(env,p,i) == IF i > Len(p) THEN Val("")
  ELSE LET h == IF p[i].t = "s" THEN Val(p[i].s) ELSE LET r == VarVal(env,p[i]) IN With(VarText(r),r)
           t == Text(env,p,i+1) IN With([t EXCEPT !.v = h.v \o @],h)
Dup(env,dup,r) == IF dup = <<>> THEN r
  ELSE LET n == Eval(env,dup[1],"A") q == With(r,n) IN
       IF n.v < 0 THEN [q EXCEPT !.v = "", !.d = @ \cup {"CE010"}]
       ELSE IF r.v # "" /\ n.v > MAXSTR \div Len(r.v) THEN [q EXCEPT !.v = "", !.d = @ \cup {"CE011"}]
       ELSE [q EXCEPT !.v = RepStr(r.v,n.v)]
StrEval(env,e) ==
  LET s == Text(env,e.p,1) IN
  IF Len(s.v) > MAXSTR THEN [s EXCEPT !.v = "", !.d = @ \cup {"CE011"}]
  ELSE IF e.sub = <<>> THEN Dup(env,e.dup,s)
  ELSE LET st == Eval(env,e.sub[1],"A")
           ct == IF Len(e.sub) = 2 THEN Eval(env,e.sub[2],"A")
                 ELSE IF SubOv(Len(s.v)+1,st.v) # 0 THEN Open(0) ELSE Val(Len(s.v)-st.v+1)
           q == With(With(s,st),ct) IN
       IF st.v < 0 \/ ct.v < 0 \/ (st.v = 0 /\ ct.v > 0) THEN [q EXCEPT !.v = "", !.d = @ \cup {"CE008"}]
       ELSE IF st.v > Len(s.v) THEN [q EXCEPT !.v = "", !.d = @ \cup {"CE009"}]
       ELSE LET e2 == IF ct.v > Len(s.v)-st.v+1 THEN Len(s.v) ELSE st.v+ct.v-1
                b == IF ct.v = 0 THEN "" ELSE SubSeq(s.v,st.v,e2)
            IN Dup(env,e.dup,[q EXCEPT !.v = b])
Concat(env,x,n) == IF n = 1 THEN Eval(env,x[1],"C")
  ELSE LET l == Concat(env,x,n-1) r == Eval(env,x[n],"C") q == With(l,r) IN
       IF Len(l.v)+Len(r.v) > MAXSTR THEN [q EXCEPT !.v = "", !.d = @ \cup {"CE011"}] ELSE [q EXCEPT !.v = l.v \o r.v]
\* x = <<e1,op,e2,op,...>>; product ending at i (going left while * or /)
Ap(op,l,r) == With(With(Arith(op,l.v,r.v),l),r)
MulEval(env,x,lo,i) == IF i = lo THEN Eval(env,x[i],"A") ELSE Ap(x[i-1],MulEval(env,x,lo,i-2),Eval(env,x[i],"A"))
AddEval(env,x,lo,hi) ==
  LET P == {i \in lo..hi : (i-lo) % 2 = 1 /\ x[i] \in {"+","-"}} IN
  IF P = {} THEN MulEval(env,x,lo,hi)
  ELSE LET i == CHOOSE i \in P : \A j \in P : j <= i IN Ap(x[i],AddEval(env,x,lo,i-1),MulEval(env,x,i+1,hi))
BinOp(k,op,l,r) ==
  IF k = "B" THEN Val(CASE op = "AND" -> Bool(l.v=1 /\ r.v=1) [] op = "OR" -> Bool(l.v=1 \/ r.v=1) [] op = "XOR" -> Bool(l.v # r.v))
  ELSE Val(CASE op = "AND" -> WAnd(l.v,r.v) [] op = "OR" -> WOr(l.v,r.v) [] op = "XOR" -> WXor(l.v,r.v) [] OTHER -> Shift(op,l.v,r.v))
\* a parenthesised list of operands and operator words; operators are strings
IsOp(x) == x.t = "op"
ListEval(env,x,k) ==
  IF Len(x) = 1 THEN Eval(env,x[1],k)
  ELSE LET B == {i \in 2..Len(x) : IsOp(x[i]) /\ x[i].o \notin Unary}
           m == IF B = {} THEN -1 ELSE LET q == CHOOSE i \in B : \A j \in B : Prio(k,x[j].o) <= Prio(k,x[i].o) IN Prio(k,x[q].o) IN
       IF IsOp(x[1]) /\ (B = {} \/ m < Prio(k,x[1].o)) THEN
         LET o == x[1].o
             r == IF k = "C" /\ o \in {"BYTE","SIGNED"} THEN ListEval(env,Tail(x),"A") ELSE ListEval(env,Tail(x),k) IN
         IF o = "NOT" THEN With(Val(IF k = "B" THEN 1-r.v ELSE WNot(r.v)),r)
         ELSE IF o \in {"BYTE","SIGNED"} THEN With(FnA(o,r.v),r) ELSE With(FnC(o,r.v),r)
       ELSE LET C == {i \in B : Prio(k,x[i].o) = m}
                i == CHOOSE i \in C : \A j \in C : j <= i
                o == x[i].o  L == SubSeq(x,1,i-1)  R == SubSeq(x,i+1,Len(x)) IN
            IF o \in Rel THEN
              LET kk == IF IsCharExpr(x[1]) THEN "C" ELSE "A"
                  l == ListEval(env,L,kk) r == ListEval(env,R,kk) IN
              IF kk = "C" /\ ~(AllIn(l.v,CharSet) /\ AllIn(r.v,CharSet)) THEN Open(0)
              ELSE With(With(Val(RelOp(o, IF kk = "A" THEN CmpInt(l.v,r.v) ELSE CmpStr(l.v,r.v))),l),r)
            ELSE IF o \in {"FIND","INDEX"} THEN
              LET l == ListEval(env,L,"C") r == ListEval(env,R,"C") IN
              With(With(Val(IF o = "FIND" THEN FindAny(l.v,r.v) ELSE IndexOf(l.v,r.v)),l),r)
            ELSE LET l == ListEval(env,L,k) r == ListEval(env,R,k) IN With(With(BinOp(k,o,l,r),l),r)
Eval(env,e,k) ==
  CASE e.t = "num" -> Val(IF k = "B" THEN Bool(e.v # 0) ELSE e.v)
    [] e.t = "sdt" -> SDT(e.k,e.s)
    [] e.t = "var" ->
         LET r == VarVal(env,e) IN
         With(CASE r.ty = "U" -> Val(IF k = "C" THEN "" ELSE 0)
                [] r.ty = "C" /\ k = "C" -> Val(r.v)
                [] r.ty = "C" /\ k = "A" -> IF r.v = "" THEN Val(0) ELSE SdtText(r.v)
                [] r.ty = "C" /\ k = "B" -> IF r.v = "" THEN Err(0,"CE015") ELSE LET q == SdtText(r.v) IN [q EXCEPT !.v = Bool(@ # 0), !.u = @ \/ q.v \notin {0,1}]
                [] r.ty # "C" /\ k = "C" -> Open("")
                [] k = "B" -> Val(Bool(r.v # 0))
                [] OTHER -> Val(r.v), r)
    [] e.t = "ar" -> AddEval(env,e.x,1,Len(e.x))
    [] e.t = "neg" -> LET r == Eval(env,e.x,"A") IN IF r.v = MINI THEN Open(0) ELSE [r EXCEPT !.v = -@]
    [] e.t = "pos" -> Eval(env,e.x,"A")
    [] e.t = "list" -> ListEval(env,e.x,k)
    [] e.t = "str" -> StrEval(env,e)
    [] e.t = "cat" -> Concat(env,e.x,Len(e.x))
    [] e.t = "fn" ->
         Dup(env,e.dup,
           IF e.f \in {"FIND","INDEX"} THEN
             LET l == Eval(env,e.x[1],"C") r == Eval(env,e.x[2],"C") IN With(With(Val(IF e.f = "FIND" THEN FindAny(l.v,r.v) ELSE IndexOf(l.v,r.v)),l),r)
           ELSE IF e.f \in FnOfA THEN LET a == Eval(env,e.x[1],"A") IN With(FnA(e.f,a.v),a)
           ELSE LET a == Eval(env,e.x[1],"C") IN With(FnC(e.f,a.v),a))
    [] e.t = "sattr" ->
         IF e.a = "T" THEN Val(SymAttr(env,e.s).ty)
         ELSE IF e.a = "D" THEN Val(Bool(e.s \in DOMAIN env.syms))
         ELSE LET n == SymAttr(env,e.s).len IN IF n < 0 THEN Err(1,"W013") ELSE Val(n)
    [] e.t = "attr" ->
         LET n == Name(env,e.x) s == EvalSubs(env,e.x.ix,1)
             r == CASE e.a = "N" -> NumAttr(env,n.v,s.v)
                    [] e.a = "K" -> CntAttr(env,n.v,s.v)
                    [] e.a = "T" -> TypeAttr(env,n.v,s.v)
         IN With(With(r,n),s)
=============================================================================
