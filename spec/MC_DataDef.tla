----------------------------- MODULE MC_DataDef -----------------------------
(* Layout of sequences of data definitions over a small set of operands:     *)
(* operands are aligned, never overlap, and splitting a statement before an  *)
(* operand that is not a bit field does not move anything.                   *)
EXTENDS DataDef
CONSTANTS MaxOps
VARIABLES loc, ops
vars == <<loc,ops>>
O(t,x,dup,lk,lv,nk,s,e) == [dup |-> dup, ty |-> t, x |-> x, lk |-> lk, lv |-> lv, sc |-> <<>>, ex |-> <<>>, nk |-> nk, s |-> s, e |-> e]
Abs(v) == [k |-> "abs", v |-> v, b |-> 0]
Catalogue == {O("C","",<<>>,"",0,"s",<<"A","B","C">>,<<>>), O("X","",<<2>>,"",0,"s",<<"1",",","2"," ","3","4">>,<<>>), O("H","",<<>>,"",0,"s",<<"1">>,<<>>),
  O("F","",<<>>,"",0,"s",<<"1",",","-","2">>,<<>>), O("F","",<<0>>,"",0,"none",<<>>,<<>>), O("F","D",<<3>>,"",0,"s",<<"1">>,<<>>), O("D","",<<0>>,"",0,"none",<<>>,<<>>),
  O("F","",<<>>,"b",3,"s",<<"1">>,<<>>), O("F","",<<3>>,"b",5,"s",<<"1",",","2">>,<<>>), O("P","",<<>>,"b",13,"s",<<"1">>,<<>>), O("P","",<<>>,"",0,"s",<<"1","2",".","5">>,<<>>),
  O("F","",<<>>,"B",3,"s",<<"1">>,<<>>), O("S","Y",<<>>,"",0,"e",<<>>,<<Abs(5)>>), O("Q","D",<<0>>,"",0,"none",<<>>,<<>>), O("L","Q",<<>>,"",0,"s",<<"1">>,<<>>), O("A","",<<>>,"",0,"e",<<>>,<<Abs(1),Abs(2),Abs(3)>>)}
St(o) == [op |-> "DC", lab |-> "", ops |-> o]
Init == loc \in 0..17 /\ ops = <<>>
Next == Len(ops) < MaxOps /\ \E o \in Catalogue : ops' = Append(ops,o) /\ UNCHANGED loc
Spec == Init /\ [][Next]_vars
AllOK == \A o \in Catalogue : Accepted(o,"DC")
RECURSIVE Starts(_,_)
Starts(os,bit) == IF os = <<>> THEN <<>> ELSE <<Start(Head(os),bit)>> \o Starts(Tail(os),After(Head(os),bit))
Aligned == \A i \in DOMAIN ops : LET b == Starts(ops,8*loc) IN
  /\ ops[i].lk # "b" => b[i] % (8*Align(ops[i])) = 0
  /\ i > 1 => b[i] >= b[i-1] + UnitBits(ops[i-1])*Dup(ops[i-1])
  /\ (i > 1 /\ ops[i].lk = "b") => b[i] = b[i-1] + UnitBits(ops[i-1])*Dup(ops[i-1])
FirstAtLabel == ops # <<>> => Starts(ops,8*loc)[1] = 8*LabelAt(St(ops),loc)
Split == \A i \in 2..Len(ops) : ops[i].lk # "b" => NextLoc(St(ops),loc) = NextLoc(St(SubSeq(ops,i,Len(ops))),NextLoc(St(SubSeq(ops,1,i-1)),loc))
(* a statement takes the same storage at every address of the strictest alignment *)
Shift == ops # <<>> => NextLoc(St(ops),loc+16) = NextLoc(St(ops),loc) + 16
Inv == AllOK /\ Aligned /\ FirstAtLabel /\ Split /\ Shift
=============================================================================
