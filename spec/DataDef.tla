------------------------------ MODULE DataDef ------------------------------
(* Assembler data definitions (DC, DS): which operands are accepted, where   *)
(* each of them is placed, how much storage a statement takes and which      *)
(* attributes (length, type, scale, integer) its label has.                  *)
(* An operand is                                                             *)
(*   [dup |-> <<n>> or <<>>, ty, x |-> "" or extension, lk |-> "" | "B" | "b",*)
(*    lv |-> n, sc |-> <<n>> or <<>>, ex |-> <<n>> or <<>>,                  *)
(*    nk |-> "none" | "s" | "e", s |-> characters, e |-> expressions]        *)
(* An expression is [k |-> "abs" | "rel" | "addr", v, b].                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Max(a,b) == IF a > b THEN a ELSE b
CeilDiv(a,b) == (a + b - 1) \div b
Up(a,b) == CeilDiv(a,b) * b
No == [k |-> "no"]
Free == [k |-> "any"]
Ign == [k |-> "ign"]
In(lo,hi) == [k |-> "in", lo |-> lo, hi |-> hi]
(* bit and byte length, byte length in DS, scale, exponent, kind of nominal  *)
(* value, alignment, implicit length (0: as the value needs)                 *)
T(bit,byte,ds,sc,ex,nom,al,il) == [bit |-> bit, byte |-> byte, ds |-> ds, sc |-> sc, ex |-> ex, nom |-> nom, al |-> al, il |-> il]
Str(mx,ds) == T(In(1,mx*8),In(1,mx),ds,No,No,"s",1,0)
Fix(l) == T(In(1,64),In(1,8),In(1,8),In(-187,346),In(-85,75),"s",l,l)
Flt(bit,byte,sc,al,il) == T(bit,byte,byte,sc,In(-85,75),"s",al,il)
Adr(al,il) == T(Free,Free,Free,No,No,"e",al,il)
Sym(byte,al,il) == T(No,byte,byte,No,No,"y",al,il)
Types == [B |-> Str(256,In(1,256)), C |-> Str(256,In(1,65535)), CA |-> Str(256,In(1,65535)), CE |-> Str(256,In(1,65535)),
  CU |-> T(No,In(1,256),In(1,256),No,No,"s",1,0), G |-> T(No,In(1,256),In(1,65534),No,No,"s",1,0), X |-> Str(256,In(1,65535)),
  P |-> Str(16,In(1,16)), Z |-> Str(16,In(1,16)), H |-> Fix(2), F |-> Fix(4), FD |-> Fix(8),
  A |-> Adr(4,4), AD |-> Adr(8,8), Y |-> Adr(2,2),
  S |-> T(No,In(2,2),In(2,2),No,No,"a",2,2), SY |-> T(No,In(3,3),In(3,3),No,No,"a",2,3),
  R |-> Sym(In(3,4),4,4), RD |-> Sym(Free,8,8), V |-> Sym(In(3,4),4,4), VD |-> Sym(Free,8,8),
  Q |-> Sym(In(1,4),4,4), QD |-> Sym(In(1,8),16,8), QY |-> Sym(In(3,3),2,3), J |-> Sym(Free,4,4), JD |-> Sym(Free,8,8),
  E |-> Flt(In(1,64),In(1,8),In(0,5),4,4), EH |-> Flt(In(12,64),In(1,8),In(0,5),4,4), ED |-> Flt(In(32,32),In(4,4),Ign,4,4), EB |-> Flt(In(32,32),In(4,4),Ign,4,4),
  D |-> Flt(In(1,64),In(1,8),In(0,13),8,8), DH |-> Flt(In(12,64),In(1,8),In(0,13),8,8), DD |-> Flt(In(64,64),In(8,8),Ign,8,8), DB |-> Flt(In(64,64),In(8,8),Ign,8,8),
  L |-> Flt(In(1,128),In(1,16),In(0,27),8,16), LH |-> Flt(In(12,128),In(1,16),In(0,27),8,16), LQ |-> Flt(In(12,128),In(1,16),In(0,27),16,16),
  LD |-> Flt(In(128,128),In(16,16),Ign,8,16), LB |-> Flt(In(128,128),In(16,16),Ign,8,16)]
Nm(o) == o.ty \o o.x
Known(o) == Nm(o) \in DOMAIN Types
TypeOf(o) == Types[Nm(o)]
(*************************** nominal values *******************************)
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Hex == Digits \cup {"A","B","C","D","E","F"}
RECURSIVE SplitAt(_,_,_)
(* comma separated values *)
SplitAt(s,cur,acc) == IF s = <<>> THEN Append(acc,cur)
                      ELSE IF Head(s) = "," THEN SplitAt(Tail(s),<<>>,Append(acc,cur))
                      ELSE SplitAt(Tail(s),Append(cur,Head(s)),acc)
Values(s) == SplitAt(s,<<>>,<<>>)
NoBlanks(v) == SelectSeq(v,LAMBDA c : c # " ")
Count(v,S) == Cardinality({i \in DOMAIN v : v[i] \in S})
RECURSIVE IdxOf(_,_,_)
(* position of the first character in S, or past the end *)
IdxOf(v,S,i) == IF i > Len(v) THEN i ELSE IF v[i] \in S THEN i ELSE IdxOf(v,S,i+1)
Sub(v,a,b) == IF a > b THEN <<>> ELSE SubSeq(v,a,b)
AllIn(v,S) == \A i \in DOMAIN v : v[i] \in S
(* an optional sign, digits with at most one period *)
Decimal(v,signs) == LET w == IF v # <<>> /\ v[1] \in signs THEN Tail(v) ELSE v
                    IN AllIn(w,Digits \cup {"."}) /\ Count(w,{"."}) <= 1 /\ Count(w,Digits) >= 1
(* E, an optional sign, digits *)
Exponent(v) == v = <<>> \/ (v[1] = "E" /\ LET w == Tail(v) IN LET d == IF w # <<>> /\ w[1] \in {"+","-"} THEN Tail(w) ELSE w IN d # <<>> /\ AllIn(d,Digits))
RECURSIVE Join(_)
Join(v) == IF v = <<>> THEN "" ELSE Head(v) \o Join(Tail(v))
Rounding(x) == CASE x \in {"B","H"} -> {"1","4","5","6","7"} [] x = "D" -> {"8","9","10","11","12","13","14","15"} [] OTHER -> {}
FixedOK(v) == LET i == IdxOf(v,{"E"},1) IN Decimal(Sub(v,1,i-1),{"U","+","-"}) /\ Exponent(Sub(v,i,Len(v)))
(* a floating point value: number, exponent, rounding mode *)
FloatOK(v) == LET r == IdxOf(v,{"R"},1) IN LET i == IdxOf(Sub(v,1,r-1),{"E"},1) IN
              Decimal(Sub(v,1,i-1),{"+","-"}) /\ Exponent(Sub(v,i,r-1))
ModeOK(x,v) == LET r == IdxOf(v,{"R"},1) IN r > Len(v) \/ Join(Sub(v,r+1,Len(v))) \in Rounding(x)
(* errors of the nominal value itself *)
Nominal(o) ==
  LET vs == Values(o.s) IN
  CASE o.ty = "B" -> IF \A i \in DOMAIN vs : NoBlanks(vs[i]) # <<>> /\ AllIn(NoBlanks(vs[i]),{"0","1"}) THEN {} ELSE {"D010"}
  [] o.ty = "X" -> IF \A i \in DOMAIN vs : NoBlanks(vs[i]) # <<>> /\ AllIn(NoBlanks(vs[i]),Hex) THEN {} ELSE {"D010"}
  [] o.ty \in {"H","F"} -> IF \A i \in DOMAIN vs : FixedOK(vs[i]) THEN {} ELSE {"D010"}
  [] o.ty \in {"P","Z"} -> IF \A i \in DOMAIN vs : Decimal(vs[i],{"+","-"}) THEN {} ELSE {"D010"}
  [] o.ty \in {"E","D","L"} -> IF \E i \in DOMAIN vs : ~FloatOK(vs[i]) THEN {"D010"}
                               ELSE IF \E i \in DOMAIN vs : ~ModeOK(o.x,vs[i]) THEN {"D026"} ELSE {}
  [] OTHER -> {}
(* address constants: displacement and base of S, lengths of A and Y *)
AdrLen(o) == LET reloc == \E i \in DOMAIN o.e : o.e[i].k = "rel" IN
  IF o.lk = "" THEN {}
  ELSE IF o.lk = "b" THEN (IF reloc THEN {"D007"} ELSE IF o.lv \in 1..(IF o.ty = "Y" THEN 16 ELSE 128) THEN {} ELSE {"D008"})
  ELSE LET mx == IF o.ty = "Y" THEN 2 ELSE 8
           mr == IF Nm(o) = "A" THEN 4 ELSE mx
       IN IF (reloc /\ o.lv \in 2..mr) \/ (~reloc /\ o.lv \in 1..mx) THEN {} ELSE {"D008"}
Disp(o,v) == IF o.x = "Y" THEN v \in -524288..524287 ELSE v \in 0..4095
AdrOK(o) == {d \in {"D022"} : \E i \in DOMAIN o.e : ~Disp(o,o.e[i].v)} \cup {d \in {"D023"} : \E i \in DOMAIN o.e : o.e[i].k = "addr" /\ o.e[i].b \notin 0..15}
(******************************* acceptance *******************************)
Within(spec,v,na) == CASE spec.k = "any" -> {}
  [] spec.k = "ign" -> {"D025"}
  [] spec.k = "no" -> {na}
  [] OTHER -> IF v \in spec.lo..spec.hi THEN {} ELSE {"D008"}
LengthSpec(o,instr) == IF o.lk = "b" THEN (IF instr = "DS" /\ TypeOf(o).ds # TypeOf(o).byte THEN In(1,TypeOf(o).ds.hi*8) ELSE TypeOf(o).bit)
                       ELSE IF instr = "DS" THEN TypeOf(o).ds ELSE TypeOf(o).byte
(* modifiers: every one of them is judged on its own *)
Modifiers(o,instr) ==
  (IF o.dup # <<>> /\ o.dup[1] < 0 THEN {"D011"} ELSE {})
  \cup (IF o.lk = "" THEN {} ELSE IF o.lk = "b" /\ TypeOf(o).bit.k = "no" THEN {"D007"} ELSE Within(LengthSpec(o,instr),o.lv,"D007"))
  \cup (IF o.sc = <<>> THEN {} ELSE Within(TypeOf(o).sc,o.sc[1],"D009"))
  \cup (IF o.ex = <<>> THEN {} ELSE Within(TypeOf(o).ex,o.ex[1],"D009"))
Dup(o) == IF o.dup = <<>> THEN 1 ELSE o.dup[1]
(* the value is required by DC unless it is repeated zero times *)
Present(o,instr) == IF o.nk = "none" THEN (IF instr = "DC" /\ Dup(o) # 0 THEN {"D016"} ELSE {})
  ELSE LET n == TypeOf(o).nom IN
       IF n = "s" THEN (IF o.nk # "s" THEN {"D018"} ELSE {})
       ELSE IF o.nk # "e" THEN {"D017"}
       ELSE IF n \in {"e","y"} /\ \E i \in DOMAIN o.e : o.e[i].k = "addr" THEN {"D020"} ELSE {}
(* rules of single types *)
Special(o,valueGiven) ==
  CASE Nm(o) = "CU" \/ o.ty = "G" -> IF o.lk # "" /\ o.lv > 0 /\ o.lv % 2 = 1 THEN {"D014"} ELSE {}
  [] Nm(o) \in {"RD","VD"} -> IF o.lk # "" /\ o.lv \notin {3,4,8} THEN {"D021"} ELSE {}
  [] o.ty = "J" -> IF o.lk # "" /\ o.lv \notin {2,3,4,8} THEN {"D024"} ELSE {}
  [] o.ty \in {"A","Y"} -> IF valueGiven THEN AdrLen(o) ELSE {}
  [] o.ty = "S" -> IF valueGiven THEN AdrOK(o) ELSE {}
  [] OTHER -> IF valueGiven /\ TypeOf(o).nom = "s" THEN Nominal(o) ELSE {}
Warnings == {"D025"}
(* number of values, each of which has the explicit or the fixed length *)
ValueCount(o) == IF o.nk = "none" \/ o.ty \in {"C","G"} THEN 1
                 ELSE IF o.nk = "s" THEN Len(Values(o.s)) ELSE Len(o.e)
ValueLen(o,v) == CASE o.ty = "B" -> CeilDiv(Len(NoBlanks(v)),8)
  [] o.ty = "X" -> CeilDiv(Len(NoBlanks(v)),2)
  [] o.ty = "P" -> CeilDiv(Count(v,Digits)+1,2)
  [] o.ty = "Z" -> Count(v,Digits)
RECURSIVE SumLen(_,_)
SumLen(o,vs) == IF vs = <<>> THEN 0 ELSE ValueLen(o,Head(vs)) + SumLen(o,Tail(vs))
(* length needed by the value when there is no length modifier *)
Needed(o) == CASE Nm(o) = "CU" -> 2 * (IF o.nk = "none" THEN 1 ELSE Len(o.s))
  [] o.ty = "C" -> IF o.nk = "none" THEN 1 ELSE Len(o.s)
  [] o.ty = "G" -> IF o.nk = "none" THEN 2 ELSE Len(o.s) - Count(o.s,{"<",">"})
  [] OTHER -> IF o.nk = "none" THEN 1 ELSE SumLen(o,Values(o.s))
(* bits of one repetition *)
UnitBits(o) == IF o.lk = "b" THEN ValueCount(o) * o.lv
               ELSE IF o.lk = "B" THEN ValueCount(o) * o.lv * 8
               ELSE IF TypeOf(o).il = 0 THEN Needed(o) * 8
               ELSE ValueCount(o) * TypeOf(o).il * 8
TooLong(o) == Dup(o) > 100000 /\ UnitBits(o) > 0 /\ Dup(o) > (2147483647 \div CeilDiv(UnitBits(o),8))
Errors(o,instr) ==
  IF ~Known(o) THEN {IF o.ty \in DOMAIN Types THEN "D013" ELSE "D012"}
  ELSE LET p == Present(o,instr)
           e == Modifiers(o,instr) \cup p \cup Special(o,o.nk # "none" /\ p = {})
       IN IF e \ Warnings # {} THEN e ELSE e \cup (IF TooLong(o) THEN {"D028"} ELSE {})
Accepted(o,instr) == Errors(o,instr) \subseteq Warnings
(******************************* placement ********************************)
Align(o) == IF Known(o) /\ o.lk = "" THEN TypeOf(o).al ELSE 1
(* the bit at which the operand starts, given the bit after the previous one *)
Start(o,bit) == IF o.lk = "b" THEN bit ELSE Up(Up(bit,8),8*Align(o))
After(o,bit) == Start(o,bit) + UnitBits(o) * Dup(o)
RECURSIVE Place(_,_)
Place(ops,bit) == IF ops = <<>> THEN bit ELSE Place(Tail(ops),After(Head(ops),bit))
AllAccepted(st) == \A i \in DOMAIN st.ops : Accepted(st.ops[i],st.op)
(* the label has the address of the first operand *)
LabelAt(st,loc) == Up(loc,Align(st.ops[1]))
(* the location counter after the statement; nothing is reserved for an incorrect one *)
NextLoc(st,loc) == IF AllAccepted(st) THEN Up(Place(st.ops,8*loc),8) \div 8 ELSE LabelAt(st,loc)
(******************************* attributes *******************************)
LengthAttr(o) == IF o.lk = "B" THEN o.lv ELSE IF o.lk = "b" THEN CeilDiv(o.lv,8)
                 ELSE IF TypeOf(o).il # 0 THEN TypeOf(o).il
                 ELSE IF o.nk # "s" THEN Needed(o)
                 ELSE IF o.ty \in {"C","G"} THEN Needed(o) ELSE ValueLen(o,Values(o.s)[1])
TypeAttr(o) == CASE o.ty \in {"B","C","P","X","Z"} -> o.ty
  [] o.ty = "G" -> "@"
  [] o.lk = "" -> (CASE o.ty = "J" -> "A" [] o.ty = "R" -> "V" [] OTHER -> o.ty)
  [] OTHER -> IF o.ty \in {"F","H"} THEN "G" ELSE IF o.ty \in {"E","D","L"} THEN "K" ELSE "R"
(* scale and integer attributes exist for numbers only *)
HasScale(o) == o.ty \in {"F","H","P","Z","E","D","L"}
ScaleAttr(o) == IF o.sc # <<>> THEN o.sc[1]
                ELSE IF o.ty \in {"P","Z"} /\ o.nk = "s" THEN LET v == Values(o.s)[1] IN LET i == IdxOf(v,{"."},1) IN Count(Sub(v,i+1,Len(v)),Digits)
                ELSE 0
IntegerAttr(o) == LET l == LengthAttr(o) s == ScaleAttr(o) IN
  CASE o.ty \in {"F","H"} -> 8*l - s - 1
  [] o.ty = "P" -> 2*l - s - 1
  [] o.ty = "Z" -> l - s
  [] OTHER -> IF o.x \in {"B","D"} THEN 0 ELSE IF l > 8 THEN 2*(l-1) - s - 2 ELSE 2*(l-1) - s
=============================================================================
