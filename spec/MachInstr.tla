----------------------------- MODULE MachInstr -----------------------------
(* Machine instructions: the storage an instruction takes, the boundary it   *)
(* is placed on, the attributes of its label, and which operand lists it     *)
(* accepts (number, form and range of the operands), with the diagnostic of  *)
(* every operand it does not accept.                                         *)
(* An operand is [k, d, x, b]:                                               *)
(*   k = "v": absolute value d          k = "r": relocatable expression      *)
(*   k = "db": d(b)   "dxb": d(x,b)   "d.b": d(,b)   "dx.": d(x,)            *)
(*   k = "e": left empty between commas                                      *)
EXTENDS Integers, Sequences, FiniteSets, MachTable
MinInt == -2147483647 - 1
MaxInt == 2147483647
(***************************** formats ************************************)
Half == {"E","I","RR"}
Word == {"IE","RRD","RRE","RRF_a","RRF_b","RRF_c","RRF_d","RRF_e","RI_a","RI_b","RI_c","RS_a","RS_b","RSI","RX_a","RX_b","S","SI"}
FormatLen(f) == IF f \in Half THEN 2 ELSE IF f \in Word THEN 4 ELSE 6
(************************ kinds of operands *******************************)
(* a plain operand: code when it is not one, code when out of range, range *)
Plain(form,range,lo,hi) == [p |-> TRUE, form |-> form, range |-> range, lo |-> lo, hi |-> hi]
(* an address: range of the displacement, what may stand in front of the   *)
(* base ("" nothing) with its limit and its code                           *)
Addr(lo,hi,x,mx,code) == [p |-> FALSE, lo |-> lo, hi |-> hi, x |-> x, mx |-> mx, code |-> code]
Kinds == [reg |-> Plain("M110","M120",0,15), mask |-> Plain("M111","M121",0,15), vec |-> Plain("M114","M124",0,15),
  imm4u |-> Plain("M112","M122",0,15), imm8s |-> Plain("M112","M122",-128,127), imm8u |-> Plain("M112","M122",0,255),
  imm12s |-> Plain("M112","M122",-2048,2047), imm16s |-> Plain("M112","M122",-32768,32767), imm16u |-> Plain("M112","M122",0,65535),
  imm32s |-> Plain("M112","M122",MinInt,MaxInt), imm32u |-> Plain("M112","M122",0,MaxInt),
  rel12 |-> Plain("M113","M123",-2048,2047), rel16 |-> Plain("M113","M123",-32768,32767), rel24 |-> Plain("M113","M123",-8388608,8388607), rel32 |-> Plain("M113","M123",MinInt,MaxInt),
  db12 |-> Addr(0,4095,"",0,"M104"), db20 |-> Addr(-524288,524287,"",0,"M104"),
  dxb12 |-> Addr(0,4095,"X",15,"M135"), dxb20 |-> Addr(-524288,524287,"X",15,"M135"),
  drb12 |-> Addr(0,4095,"R",15,"M133"), dvb12 |-> Addr(0,4095,"V",15,"M134"),
  dlb8 |-> Addr(0,4095,"L",256,"M132"), dlb4 |-> Addr(0,4095,"L",16,"M132")]
Relative == {"rel12","rel16","rel24","rel32"}
(* vector registers 16 to 31 are left open *)
Open(kind,o) == \/ kind = "vec" /\ o.k = "v" /\ o.d \in 16..31
                \/ kind = "dvb12" /\ ((o.k = "dxb" /\ o.x \in 16..31) \/ (o.k = "db" /\ o.b \in 16..31))
In(v,lo,hi) == v >= lo /\ v <= hi
Ok == ""
PlainDiag(kind,r,o) ==
  IF o.k = "v" THEN (IF In(o.d,r.lo,r.hi) THEN Ok ELSE r.range)
  ELSE IF o.k = "r" /\ kind \in Relative THEN Ok ELSE r.form
AddrDiag(r,o) ==
  IF o.k = "r" THEN Ok
  ELSE IF o.k = "dx." THEN "M004"
  ELSE IF ~In(o.d,r.lo,r.hi) THEN "M130"
  ELSE IF o.k = "v" THEN Ok
  ELSE IF r.x = "" THEN (IF o.k # "db" THEN r.code ELSE IF In(o.b,0,15) THEN Ok ELSE "M131")
  ELSE IF o.k = "db" THEN (IF In(o.b,0,r.mx) THEN Ok ELSE r.code)
  ELSE IF ~In(o.b,0,15) THEN "M131"
  ELSE IF o.k = "d.b" \/ In(o.x,0,r.mx) THEN Ok ELSE r.code
Diag(kind,o) == IF o.k = "e" THEN "M003" ELSE IF Kinds[kind].p THEN PlainDiag(kind,Kinds[kind],o) ELSE AddrDiag(Kinds[kind],o)
(********************* instructions and mnemonics **************************)
IsExt(n) == n \in DOMAIN Extended
Base(n) == IF IsExt(n) THEN Extended[n][1] ELSE n
Fixed(n) == IF IsExt(n) THEN {Extended[n][2][i][1] : i \in DOMAIN Extended[n][2]} ELSE {}
Row(n) == Machine[Base(n)]
(* the positions left to the programmer, in order, and how many of the last may be left out *)
RECURSIVE Free(_,_,_)
Free(row,fixed,p) == IF p > Len(row.ops) THEN <<>> ELSE (IF p \in fixed THEN <<>> ELSE <<p>>) \o Free(row,fixed,p + 1)
Given(n) == Free(Row(n),Fixed(n),1)
Optional(n) == LET row == Row(n) IN Cardinality(((Len(row.ops) - row.opt + 1)..Len(row.ops)) \ Fixed(n))
CountCode(k) == IF k = 0 THEN "M000" ELSE IF k = 1 THEN "M001" ELSE "M002"
Length(n) == FormatLen(Row(n).f)
(* diagnostics of an operand list, in order; <<>> exactly when it is accepted *)
Diags(n,ops) ==
  LET g == Given(n) row == Row(n) IN
  IF g = <<>> THEN <<>>      \* what follows is a remark
  ELSE IF Len(ops) > Len(g) \/ Len(ops) < Len(g) - Optional(n) THEN <<CountCode(Optional(n))>>
  ELSE LET d == [i \in DOMAIN ops |-> Diag(row.ops[g[i]],ops[i])] IN SelectSeq(d, LAMBDA c : c # Ok)
Unsettled(n,ops) == LET g == Given(n) IN \E i \in DOMAIN ops : i <= Len(g) /\ Open(Row(n).ops[g[i]],ops[i])
(******************************* storage ***********************************)
Up2(l) == IF l % 2 = 0 THEN l ELSE l + 1
At(st,l) == IF st.k = "m" THEN Up2(l) ELSE l
After(st,l) == IF st.k = "m" THEN Up2(l) + Length(st.n) ELSE l + st.len
=============================================================================
