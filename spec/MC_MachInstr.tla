--------------------------- MODULE MC_MachInstr ---------------------------
(* The instruction set as specified, one mnemonic after the other, with      *)
(* operand lists over the limits of every kind of operand.                   *)
EXTENDS MachInstr
VARIABLES n, ops, done
vars == <<n,ops,done>>
All == Mnemonics \cup DOMAIN Extended
O(k,d,x,b) == [k |-> k, d |-> d, x |-> x, b |-> b]
Edge(kind) == LET r == Kinds[kind] IN
  IF r.p THEN {O("v",r.lo,0,0),O("v",r.hi,0,0),O("r",0,0,0),O("db",0,0,1),O("e",0,0,0)} \cup (IF r.hi < MaxInt THEN {O("v",r.hi + 1,0,0)} ELSE {}) \cup (IF r.lo > MinInt THEN {O("v",r.lo - 1,0,0)} ELSE {})
  ELSE {O("v",r.lo,0,0),O("v",r.hi + 1,0,0),O("v",r.lo - 1,0,0),O("db",r.hi,0,15),O("db",0,0,16),O("dxb",0,r.mx,15),O("dxb",0,r.mx + 1,1),O("dxb",0,1,16),O("d.b",0,0,1),O("d.b",0,0,16),O("dx.",0,1,0),O("db",0,0,r.mx + 1)}
Good(kind) == CHOOSE o \in Edge(kind) : Diag(kind,o) = Ok
Init == n \in All /\ ops = <<>> /\ done = FALSE
(* one operand at a time takes every edge, the others are acceptable *)
Add == /\ ~done /\ Len(ops) < Len(Given(n)) + 1
       /\ \E o \in (IF Len(ops) = Len(Given(n)) THEN {O("v",0,0,0)}
                    ELSE LET k == Row(n).ops[Given(n)[Len(ops) + 1]] IN
                         IF \E i \in DOMAIN ops : ops[i] # Good(Row(n).ops[Given(n)[i]]) THEN {Good(k)} ELSE Edge(k)) : ops' = Append(ops,o)
       /\ UNCHANGED <<n,done>>
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<n,ops>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
(* the set is well formed *)
FormedInstr == /\ Base(n) \in Mnemonics /\ (IsExt(n) => n \notin Mnemonics)
          /\ Length(n) \in {2,4,6} /\ Row(n).opt <= Len(Row(n).ops)
          /\ (\A i \in DOMAIN Row(n).ops : Row(n).ops[i] \in DOMAIN Kinds)
          /\ Optional(n) <= Len(Given(n))
          (* two address fields, a vector register or a 20- or 24-bit field do not fit a fullword *)
          /\ (Length(n) < 6 => Cardinality({i \in DOMAIN Row(n).ops : ~Kinds[Row(n).ops[i]].p}) <= 1 /\ \A i \in DOMAIN Row(n).ops : Row(n).ops[i] \notin {"vec","rel24","rel32","imm32s","imm32u","dxb20"})
          /\ (Length(n) = 2 => \A i \in DOMAIN Row(n).ops : Row(n).ops[i] \in {"reg","mask","imm8u"})
FormedExt == IsExt(n) => LET e == Extended[n][2] IN
             /\ (\A i,j \in DOMAIN e : i # j => e[i][1] # e[j][1])
             /\ (\A i \in DOMAIN e : e[i][1] \in DOMAIN Row(n).ops /\ Diag(Row(n).ops[e[i][1]],O("v",e[i][2],0,0)) = Ok)
             (* an extended mnemonic fixes masks and immediates, a complement also its second source *)
             /\ n \in {"NOTR","NOTGR","VNOT"} \/ \A i \in DOMAIN e : Row(n).ops[e[i][1]] \notin {"reg","vec"}
(* a list is accepted exactly when it has an admissible number of operands each acceptable on its own; every wrong one is reported *)
Decided == done /\ Given(n) # <<>> =>
  LET d == Diags(n,ops) g == Given(n) fits == Len(ops) <= Len(g) /\ Len(ops) >= Len(g) - Optional(n)
      bad == {i \in DOMAIN ops : i <= Len(g) /\ Diag(Row(n).ops[g[i]],ops[i]) # Ok} IN
  /\ fits => Len(d) = Cardinality(bad)
  /\ ~fits => Len(d) = 1 /\ d[1] \in {"M000","M001","M002"}
(* a mnemonic accepts what its instruction accepts with the fixed operands filled in *)
Fill(p) == LET e == Extended[n][2] IN LET i == CHOOSE i \in DOMAIN e : e[i][1] = p IN O("v",e[i][2],0,0)
RECURSIVE Full(_,_)
Full(p,i) == IF p > Len(Row(n).ops) THEN <<>> ELSE IF p \in Fixed(n) THEN <<Fill(p)>> \o Full(p + 1,i) ELSE IF i > Len(ops) THEN <<>> ELSE <<ops[i]>> \o Full(p + 1,i + 1)
Expands == done /\ IsExt(n) /\ Len(ops) <= Len(Given(n)) /\ Len(ops) >= Len(Given(n)) - Optional(n) /\ Given(n) # <<>> => Diags(n,ops) = Diags(Base(n),Full(1,1))
=============================================================================
