------------------------------ MODULE SymDeps ------------------------------
(* Ordinary symbols whose definitions refer to each other in any order.      *)
(* A program is a sequence of section headers, storage definitions whose     *)
(* size is an expression, and EQU statements.  Statements are resolved as    *)
(* soon as everything they depend on is known; the resolution order is not   *)
(* prescribed (Resolve), the result is (Fix).                                *)
(*                                                                           *)
(* An address is a linear form: a constant, a coefficient per section and a  *)
(* coefficient per storage definition or location counter start not yet     *)
(* known, so that   *)
(* the difference of two labels depends only on what lies between them.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---------------------------------------------------------------- layout *)
IsHead(st) == st.op \in {"SECT","LOCTR"}
First(P,n) == CHOOSE j \in DOMAIN P : P[j].lab = n /\ \A i \in 1..(j-1) : P[i].lab # n
SymStmt(P,n) == IF \E j \in DOMAIN P : P[j].lab = n THEN First(P,n) ELSE 0
LastHead(P,k) == LET H == {j \in 1..k : IsHead(P[j])} IN IF H = {} THEN 0 ELSE CHOOSE j \in H : \A i \in H : i <= j
RECURSIVE SecAt(_,_)
SecAt(P,k) == LET j == LastHead(P,k) IN
              IF j = 0 THEN 0 ELSE IF P[j].op = "SECT" THEN First(P,P[j].lab) ELSE SecAt(P,First(P,P[j].lab)-1)
RECURSIVE LocAt(_,_)
LocAt(P,k) == LET j == LastHead(P,k) IN
              IF j = 0 THEN 0 ELSE IF P[j].op = "LOCTR" THEN First(P,P[j].lab)
              ELSE LET s == First(P,P[j].lab)
                       B == {i \in 1..(j-1) : IsHead(P[i]) /\ SecAt(P,i) = s}
                   IN IF B = {} THEN s ELSE LocAt(P,CHOOSE i \in B : \A x \in B : x <= i)
RECURSIVE SymsOf(_)
SymsOf(e) == CASE e.k = "s" -> {e.s}
               [] e.k = "L" -> {e.s}
               [] e.k \in {"n","loc"} -> {}
               [] e.k = "neg" -> SymsOf(e.a)
               [] OTHER -> SymsOf(e.a) \cup SymsOf(e.b)
Names(P) == UNION {SymsOf(P[k].e) : k \in {k \in DOMAIN P : ~IsHead(P[k])}} \cup {P[k].lab : k \in DOMAIN P}
(* storage definitions laid out before statement k, per statement *)
Layout(P) == LET sec == [k \in DOMAIN P |-> SecAt(P,k)]
                 loc == [k \in DOMAIN P |-> LocAt(P,k)]
             IN TLCEval([sec |-> sec, loc |-> loc, own |-> [k \in DOMAIN P |-> {j \in 1..(k-1) : P[j].op = "DS" /\ loc[j] = loc[k]}], sy |-> [n \in Names(P) |-> SymStmt(P,n)],
                 pre |-> [k \in DOMAIN P |-> {j \in DOMAIN P : P[j].op = "DS" /\ sec[j] = sec[k] /\ (loc[j] < loc[k] \/ (loc[j] = loc[k] /\ j < k))}]])

(* ----------------------------------------------------------- linear forms *)
Zero(P) == [k \in DOMAIN P |-> 0]
Const(P,v) == [u |-> FALSE, c |-> v, b |-> Zero(P), s |-> Zero(P)]
Unk(P) == [u |-> TRUE, c |-> 0, b |-> Zero(P), s |-> Zero(P)]
Free(l) == \A k \in DOMAIN l.s : l.s[k] = 0
Absolute(l) == ~l.u /\ Free(l) /\ \A k \in DOMAIN l.b : l.b[k] = 0
Comb(P,x,y,f) == IF x.u \/ y.u THEN Unk(P)
                 ELSE TLCEval([u |-> FALSE, c |-> x.c + f*y.c, b |-> [k \in DOMAIN P |-> x.b[k] + f*y.b[k]], s |-> [k \in DOMAIN P |-> x.s[k] + f*y.s[k]]])
RECURSIVE SumK(_,_,_)
SumK(l,size,k) == IF k = 0 THEN 0 ELSE (IF size[k] >= 0 THEN l.s[k]*size[k] ELSE 0) + SumK(l,size,k-1)
Subst(P,l,size) == IF l.u THEN l ELSE TLCEval([l EXCEPT !.c = @ + SumK(l,size,Len(P)), !.s = [k \in DOMAIN P |-> IF size[k] >= 0 THEN 0 ELSE l.s[k]]])
Addr(P,lay,k) == TLCEval([u |-> FALSE, c |-> 0, b |-> [j \in DOMAIN P |-> IF j = lay.sec[k] THEN 1 ELSE 0], s |-> [j \in DOMAIN P |-> IF j \in lay.own[k] \/ (j = lay.loc[k] /\ P[j].op = "LOCTR") THEN 1 ELSE 0]])
Trunc(x,y) == IF y = 0 THEN 0 ELSE LET a == IF x < 0 THEN -x ELSE x
                                       d == IF y < 0 THEN -y ELSE y
                                   IN IF (x < 0) = (y < 0) THEN a \div d ELSE -(a \div d)

(* ------------------------------------------------------------ expressions *)
RECURSIVE UsesLoc(_)
UsesLoc(e) == CASE e.k = "loc" -> TRUE
                [] e.k \in {"s","L","n"} -> FALSE
                [] e.k = "neg" -> UsesLoc(e.a)
                [] OTHER -> UsesLoc(e.a) \/ UsesLoc(e.b)
RECURSIVE Leftmost(_)
Leftmost(e) == IF e.k \in {"n","loc","s","L"} THEN e ELSE Leftmost(e.a)
NoLen == -1
(* an EQU whose value is certainly known where it stands *)
Early(P,lay,k) == LET e == P[k].e
                      Lab(x) == x.k = "s" /\ lay.sy[x.s] \in 1..(k-1) /\ P[lay.sy[x.s]].op # "EQU"
                  IN e.k \in {"n","loc"} \/ Lab(e) \/ (e.k \in {"+","-"} /\ Lab(e.a) /\ e.b.k = "n")
(* length attribute of an EQU symbol; NoLen when not specified *)
RECURSIVE EquLen(_,_,_)
EquLen(P,lay,k) == IF P[k].len >= 0 THEN P[k].len
               ELSE LET t == Leftmost(P[k].e) IN
                    IF t.k \in {"n","loc"} THEN 1
                    ELSE IF t.k = "L" THEN NoLen
                    ELSE LET j == lay.sy[t.s] IN
                         IF j = 0 \/ j >= k THEN NoLen
                         ELSE IF P[j].op \in {"SECT","LOCTR"} THEN 1
                         ELSE IF P[j].op = "DS" THEN (IF P[j].form = "dup" THEN 1 ELSE IF P[j].e.k = "n" THEN P[j].e.v ELSE NoLen)
                         ELSE IF Early(P,lay,j) THEN EquLen(P,lay,j) ELSE NoLen

(* mode.u : an undefined symbol is unknown ("unk") or zero ("zero"), or the   *)
(*          statement that refers to it counts as resolved ("skip")           *)
(* mode.strict : an EQU symbol is usable only when its value is fully known   *)
Undefined(P,lay,k) == P[k].op \in {"DS","EQU"} /\ \E n \in SymsOf(P[k].e) : lay.sy[n] = 0
(* blk: the unresolved statements an expression waits for *)
RECURSIVE Eval(_,_,_,_,_,_)
Eval(P,lay,m,env,k,e) == TLCEval(
  CASE e.k = "n" -> [l |-> Const(P,e.v), blk |-> {}]
    [] e.k = "loc" -> [l |-> Subst(P,Addr(P,lay,k),env.size), blk |-> {}]
    [] e.k = "s" ->
         LET j == lay.sy[e.s] IN
         IF j = 0 THEN [l |-> IF m.u = "unk" THEN Unk(P) ELSE Const(P,0), blk |-> {}]
         ELSE IF P[j].op # "EQU" THEN [l |-> Subst(P,Addr(P,lay,j),env.size), blk |-> {}]
         ELSE LET v == Subst(P,env.val[j],env.size) IN
              IF v.u \/ (m.strict /\ ~Free(v)) THEN [l |-> Unk(P), blk |-> {j}] ELSE [l |-> v, blk |-> {}]
    [] e.k = "L" ->
         LET j == lay.sy[e.s] IN
         IF j = 0 THEN [l |-> IF m.u = "unk" THEN Unk(P) ELSE Const(P,0), blk |-> {}]
         ELSE IF P[j].op = "EQU" THEN LET n == EquLen(P,lay,j) IN [l |-> IF n = NoLen THEN (IF m.u = "unk" THEN Unk(P) ELSE Const(P,1)) ELSE Const(P,n), blk |-> {}]
         ELSE IF P[j].op = "DS" /\ P[j].form = "len" THEN (IF env.size[j] >= 0 THEN [l |-> Const(P,env.size[j]), blk |-> {}] ELSE [l |-> Unk(P), blk |-> {j}])
         ELSE [l |-> Const(P,1), blk |-> {}]
    [] e.k = "neg" -> LET x == Eval(P,lay,m,env,k,e.a) IN [l |-> Comb(P,Const(P,0),x.l,-1), blk |-> x.blk]
    [] e.k \in {"+","-"} ->
         LET x == Eval(P,lay,m,env,k,e.a)
             y == Eval(P,lay,m,env,k,e.b)
         IN [l |-> Comb(P,x.l,y.l,IF e.k = "+" THEN 1 ELSE -1), blk |-> x.blk \cup y.blk]
    [] OTHER ->
         LET x == Eval(P,lay,m,env,k,e.a)
             y == Eval(P,lay,m,env,k,e.b)
         IN [l |-> IF Absolute(x.l) /\ Absolute(y.l) THEN Const(P,IF e.k = "*" THEN x.l.c*y.l.c ELSE Trunc(x.l.c,y.l.c)) ELSE Unk(P),
             blk |-> x.blk \cup y.blk \cup {j \in DOMAIN P : x.l.s[j] # 0 \/ y.l.s[j] # 0}])

MaxSize == 20000
Env0(P) == [val |-> [k \in DOMAIN P |-> Unk(P)], size |-> [k \in DOMAIN P |-> -1]]
(* what statement k is worth now: EQU a linear form, DS a size (-1 unknown) *)
NewVal(P,lay,m,env,k) == IF m.u = "skip" /\ Undefined(P,lay,k) THEN Const(P,0) ELSE Subst(P,Eval(P,lay,m,env,k,P[k].e).l,env.size)
NewSize(P,lay,m,env,k) ==
  IF m.u = "skip" /\ Undefined(P,lay,k) THEN 0
  ELSE LET x == Eval(P,lay,m,env,k,P[k].e).l IN
       IF ~Absolute(x) THEN -1
       ELSE IF x.c < 0 \/ x.c > MaxSize \/ (P[k].form = "len" /\ x.c = 0) THEN (IF m.u = "unk" THEN -1 ELSE 0)
       ELSE x.c
(* a location counter starts where the one before it ends *)
RECURSIVE SumTo(_,_,_)
SumTo(size,S,k) == IF k = 0 THEN 0 ELSE (IF k \in S THEN size[k] ELSE 0) + SumTo(size,S,k-1)
(* one statement resolved; the value of an EQU may still contain unknown sizes *)
ResolveOne(P,lay,m,env,k) == TLCEval(
  IF P[k].op = "EQU" /\ env.val[k].u THEN [env EXCEPT !.val[k] = NewVal(P,lay,m,env,k)]
  ELSE IF P[k].op = "DS" /\ env.size[k] < 0 THEN [env EXCEPT !.size[k] = NewSize(P,lay,m,env,k)]
  ELSE IF P[k].op = "LOCTR" /\ lay.loc[k] = k /\ env.size[k] < 0 /\ (\A j \in lay.pre[k] : env.size[j] >= 0) THEN [env EXCEPT !.size[k] = SumTo(env.size,lay.pre[k],Len(P))]
  ELSE env)
RECURSIVE Pass(_,_,_,_,_)
Pass(P,lay,m,env,k) == IF k > Len(P) THEN env ELSE Pass(P,lay,m,ResolveOne(P,lay,m,env,k),k+1)
RECURSIVE Fix(_,_,_,_)
Fix(P,lay,m,env) == LET e2 == Pass(P,lay,m,env,1) IN IF e2 = env THEN env ELSE Fix(P,lay,m,e2)
(* fully known value of the symbol defined by statement k *)
Value(P,lay,env,k) == Subst(P,IF P[k].op = "EQU" THEN env.val[k] ELSE Addr(P,lay,k),env.size)
Known(P,lay,env,k) == LET v == Value(P,lay,env,k) IN ~v.u /\ Free(v)
Pending(P,env,k) == (P[k].op = "EQU" /\ env.val[k].u) \/ (P[k].op = "DS" /\ env.size[k] < 0)

(* ------------------------------------------------------- cyclic definitions *)
Blocks(P,lay,m,env,k) ==
  IF ~Pending(P,env,k) THEN {}
  ELSE LET x == Eval(P,lay,m,env,k,P[k].e) IN x.blk \cup (IF P[k].op = "DS" /\ ~x.l.u THEN {j \in DOMAIN P : x.l.s[j] # 0} ELSE {})
RECURSIVE Close(_,_)
Close(G,n) == IF n = 0 THEN G ELSE Close(TLCEval([k \in DOMAIN G |-> G[k] \cup UNION {G[j] : j \in G[k]}]),n-1)
Closure(G) == Close(TLCEval(G),5)
(* every way a definition can depend on another, without cancellation *)
Ext(P,lay,k) == IF IsHead(P[k]) THEN lay.pre[k]
                ELSE ({lay.sy[n] : n \in SymsOf(P[k].e)} \ {0}) \cup (IF P[k].op = "DS" \/ UsesLoc(P[k].e) THEN lay.pre[k] ELSE {})
Lenient == [strict |-> FALSE, u |-> "skip"]
StrictU == [strict |-> TRUE, u |-> "unk"]
StrictZ == [strict |-> TRUE, u |-> "zero"]
(* statements that certainly lie on a cycle *)
OnCycle(P,lay) == LET env == Fix(P,lay,Lenient,Env0(P))
                      G == Closure([k \in DOMAIN P |-> Blocks(P,lay,Lenient,env,k)])
                  IN {k \in DOMAIN P : k \in G[k]}
=============================================================================
