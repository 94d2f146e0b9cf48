------------------------------- MODULE LocCtr -------------------------------
(* Storage layout of an assembly: control sections, location counters, ORG,  *)
(* alignment, data of known or later-known length.                           *)
(*                                                                           *)
(* The machine first scans the source to assign each statement to a section  *)
(* and location counter, then lays the counters out one after another, in    *)
(* the order of their definition, statement by statement.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* prog: sequence of
\*  [op:"sect",n,kind] [op:"loctr",n] [op:"ds",l,al,unit,e] [op:"ins",l,len] [op:"org",l,e:<<>>|<<expr>>,b,o] [op:"equ",l,e]
\* expr: sequence of terms [sg: 1|-1, k: "num"|"sym"|"loc", v | n]
None == [u |-> TRUE, rel |-> 0, s |-> "", v |-> 0]
Abs(v) == [u |-> FALSE, rel |-> 0, s |-> "", v |-> v]
Rel(s,v) == [u |-> FALSE, rel |-> 1, s |-> s, v |-> v]
EquOf(prog,n) == {i \in DOMAIN prog : prog[i].op = "equ" /\ prog[i].l = n}
\* value of an expression over the addresses assigned so far; constants may be defined anywhere
RECURSIVE Ev(_,_,_,_,_), Sum(_,_,_,_,_,_,_)
TermV(prog,map,here,t,d) ==
  CASE t.k = "num" -> Abs(t.v)
    [] t.k = "loc" -> here
    [] t.k = "sym" -> IF t.n \in DOMAIN map THEN map[t.n]
                      ELSE IF d = 0 \/ EquOf(prog,t.n) = {} THEN None
                      ELSE Ev(prog,map,None,prog[CHOOSE i \in EquOf(prog,t.n) : TRUE].e,d-1)
Sum(prog,map,here,e,i,acc,d) ==
  IF i > Len(e) THEN acc
  ELSE LET x == TermV(prog,map,here,e[i],d) IN
       IF x.u \/ acc.u THEN None
       ELSE IF acc.rel # 0 /\ x.rel # 0 /\ acc.s # x.s THEN None
       ELSE Sum(prog,map,here,e,i+1,[u |-> FALSE, rel |-> acc.rel + e[i].sg * x.rel, s |-> IF x.rel # 0 THEN x.s ELSE acc.s, v |-> acc.v + e[i].sg * x.v],d)
Ev(prog,map,here,e,d) == Sum(prog,map,here,e,1,Abs(0),d)
SeqSet(s) == {s[j] : j \in DOMAIN s}
\* ---- scan ------------------------------------------------------------------
L0 == [ph |-> "scan", i |-> 1, secs |-> <<>>, cs |-> 0, at |-> <<>>, map |-> <<>>, lof |-> <<>>, d |-> {}, u |-> FALSE,
       s |-> 1, l |-> 1, cur |-> 0, max |-> 0, start |-> 0]
NewSec(n,k) == [n |-> n, kind |-> k, loctrs |-> <<n>>, cl |-> 1]
\* the private section comes into being with the first statement that needs a location counter
Ensure(m) == IF m.cs = 0 THEN [m EXCEPT !.secs = Append(@,NewSec("","CSECT")), !.cs = Len(m.secs)+1] ELSE m
\* unnamed sections of different kinds (private code, blank common, unnamed dummy section) are different sections
SecOf(m,n,k) == {j \in DOMAIN m.secs : m.secs[j].n = n /\ (n # "" \/ m.secs[j].kind = k)}
CtrOf(m,n) == {<<j,k>> : j \in DOMAIN m.secs, k \in 1..20} \cap {<<j,k>> \in (DOMAIN m.secs) \X (1..20) : k <= Len(m.secs[j].loctrs) /\ m.secs[j].loctrs[k] = n}
Scan(prog,m) ==
  IF m.i > Len(prog) THEN [m EXCEPT !.ph = "lay", !.i = 1]
  ELSE LET st == prog[m.i] IN
  CASE st.op = "sect" ->
         LET m1 == IF SecOf(m,st.n,st.kind) # {} THEN [m EXCEPT !.cs = CHOOSE j \in SecOf(m,st.n,st.kind) : TRUE]
                   ELSE [m EXCEPT !.secs = Append(@,NewSec(st.n,st.kind)), !.cs = Len(m.secs)+1]
         IN [m1 EXCEPT !.i = @+1, !.at = Append(@,<<0,0>>)]
    [] st.op = "loctr" ->
         LET m0 == Ensure(m)
             m1 == IF CtrOf(m0,st.n) # {} THEN LET w == CHOOSE x \in CtrOf(m0,st.n) : TRUE IN [m0 EXCEPT !.cs = w[1], !.secs[w[1]].cl = w[2]]
                   ELSE [m0 EXCEPT !.secs[m0.cs].loctrs = Append(@,st.n), !.secs[m0.cs].cl = Len(m0.secs[m0.cs].loctrs)+1]
         IN [m1 EXCEPT !.i = @+1, !.at = Append(@,<<0,0>>)]
    [] st.op = "equ" /\ ~\E j \in DOMAIN st.e : st.e[j].k = "loc" -> [m EXCEPT !.i = @+1, !.at = Append(@,IF m.cs = 0 THEN <<1,1>> ELSE <<m.cs,m.secs[m.cs].cl>>)]
    [] OTHER -> LET m1 == Ensure(m) IN [m1 EXCEPT !.i = @+1, !.at = Append(@,<<m1.cs,m1.secs[m1.cs].cl>>)]
\* ---- layout ------------------------------------------------------------------
AlignUp(v,b) == IF b <= 1 THEN v ELSE ((v + b - 1) \div b) * b
Max(a,b) == IF a > b THEN a ELSE b
Lab(m,l,x) == IF l = "" THEN m ELSE [m EXCEPT !.map = (l :> x) @@ @, !.lof = (l :> <<m.s,m.l>>) @@ @]
To(m,v) == [m EXCEPT !.cur = v, !.max = Max(@,v)]
Here(m) == Rel(m.secs[m.s].n,m.cur)
Unk(m) == [m EXCEPT !.u = TRUE]
\* an earlier statement of the counter, or this one, depends on a symbol
LateBefore(prog,m) == \E j \in 1..m.i : /\ m.at[j] = <<m.s,m.l>> /\ prog[j].op \in {"ds","org"}
                                        /\ (prog[j].op = "org" /\ prog[j].b # 0) \/ \E t \in (IF prog[j].op = "ds" THEN SeqSet(prog[j].e) ELSE IF prog[j].e = <<>> THEN {} ELSE SeqSet(prog[j].e[1])) : t.k = "sym" /\ EquOf(prog,t.n) # {}

LayStmt(prog,m,st) ==
  CASE st.op = "ins" -> LET m1 == To(m,AlignUp(m.cur,2)) IN To(Lab(m1,st.l,Here(m1)),m1.cur + st.len)
    [] st.op = "ds" -> LET m1 == To(m,AlignUp(m.cur,st.al))  n == Ev(prog,m1.map,Here(m1),st.e,9) m2 == Lab(m1,st.l,Here(m1)) IN
                       IF n.u \/ n.rel # 0 \/ n.v < 0 THEN Unk(m2) ELSE To(m2,m2.cur + st.unit * n.v)
    [] st.op = "equ" -> LET x == Ev(prog,m.map,Here(m),st.e,9) IN IF x.u \/ x.rel \notin {0,1} THEN Unk(m) ELSE Lab(m,st.l,x)
    [] st.op = "org" ->
         LET m1 == Lab(m,st.l,Here(m)) IN
         IF (st.b # 0 /\ m.l > 1) \/  (st.o < 0 /\ LateBefore(prog,m)) THEN Unk(m1)
         ELSE IF st.e = <<>> THEN IF AlignUp(m1.max,st.b) + st.o < 0 THEN Unk(m1) ELSE To(m1,AlignUp(m1.max,st.b) + st.o)
         ELSE LET x == Ev(prog,m1.map,Here(m1),st.e[1],9)
                  t == AlignUp(x.v,st.b) + st.o
              IN IF x.u \/ x.rel # 1 \/ x.s # m.secs[m.s].n THEN Unk(m1)
                 ELSE IF t < m.start THEN IF m.l = 1 /\ ~LateBefore(prog,m) THEN [m1 EXCEPT !.d = @ \cup {"E068"}] ELSE Unk(m1)
                 ELSE To(m1,t)
\* the next location counter begins where the previous one ends
NextCtr(m) ==
  IF m.l < Len(m.secs[m.s].loctrs) THEN [m EXCEPT !.l = @+1, !.start = m.max, !.cur = m.max, !.i = 1]
  ELSE [m EXCEPT !.s = @+1, !.l = 1, !.start = 0, !.cur = 0, !.max = 0, !.i = 1]
Begin(m) == IF m.i # 1 \/ m.secs[m.s].loctrs[m.l] = "" THEN m ELSE Lab(m,m.secs[m.s].loctrs[m.l],Here(m))
Lay(prog,m) ==
  IF m.s > Len(m.secs) THEN [m EXCEPT !.ph = "equ", !.i = 1]
  ELSE LET m1 == Begin(m) IN
       IF m1.i > Len(prog) THEN NextCtr(m1)
       ELSE IF m1.at[m1.i] = <<m1.s,m1.l>> THEN [LayStmt(prog,m1,prog[m1.i]) EXCEPT !.i = @+1]
       ELSE [m1 EXCEPT !.i = @+1]
Step(prog,m) == CASE m.ph = "scan" -> Scan(prog,m) [] m.ph = "lay" -> Lay(prog,m) [] OTHER -> [m EXCEPT !.ph = "done"]
\* many statements of one counter in one go
RECURSIVE Run(_,_)
Run(prog,m) == IF m.ph = "done" THEN m ELSE Run(prog,Step(prog,m))
=============================================================================
