------------------------------ MODULE HlasmStr ------------------------------
(* Character and 32-bit arithmetic vocabulary of the assembler: EBCDIC code  *)
(* points, radix conversions, two's complement words.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MAXI == 2147483647
MINI == -2147483647 - 1
Ch(s,i) == SubSeq(s,i,i)
Digits == "0123456789"
HexU == "0123456789ABCDEF"
Upp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Low == "abcdefghijklmnopqrstuvwxyz"
\* printable characters and their EBCDIC code points
EChars == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .<(+&$*);-/,%_>?:#@'=" \o "\""
ECodes == <<193,194,195,196,197,198,199,200,201,209,210,211,212,213,214,215,216,217,226,227,228,229,230,231,232,233,
            129,130,131,132,133,134,135,136,137,145,146,147,148,149,150,151,152,153,162,163,164,165,166,167,168,169,
            240,241,242,243,244,245,246,247,248,249,64,75,76,77,78,80,91,92,93,94,96,97,107,108,109,110,111,122,123,124,125,126,127>>
CharSet == {Ch(EChars,i) : i \in 1..Len(EChars)}
Code == [c \in CharSet |-> ECodes[CHOOSE i \in 1..Len(EChars) : Ch(EChars,i)=c]]
CodeSet == {ECodes[i] : i \in 1..Len(ECodes)}
Decode == [n \in CodeSet |-> Ch(EChars, CHOOSE i \in 1..Len(ECodes) : ECodes[i]=n)]
SetOf(s) == {Ch(s,i) : i \in 1..Len(s)}
DigitSet == SetOf(Digits)
HexSet == SetOf("0123456789ABCDEFabcdef")
OrdSet == SetOf(Digits) \cup SetOf(Upp) \cup SetOf(Low) \cup {"$","_","#","@"}
UpMap == [c \in SetOf(Low) |-> Ch(Upp, CHOOSE i \in 1..26 : Ch(Low,i)=c)]
LoMap == [c \in SetOf(Upp) |-> Ch(Low, CHOOSE i \in 1..26 : Ch(Upp,i)=c)]
DigVal == [c \in HexSet |-> (CHOOSE i \in 0..15 : Ch(HexU,i+1) = (IF c \in SetOf(Low) THEN UpMap[c] ELSE c))]
RECURSIVE Join(_,_,_)
Join(q,lo,hi) == IF lo > hi THEN "" ELSE IF lo = hi THEN q[lo] ELSE LET m == (lo+hi) \div 2 IN Join(q,lo,m) \o Join(q,m+1,hi)
MapStr(s,f,i) == Join([j \in 1..Len(s) |-> LET c == Ch(s,j) IN IF c \in DOMAIN f THEN f[c] ELSE c],1,Len(s))
Upper(s) == IF \E i \in 1..Len(s) : Ch(s,i) \in DOMAIN UpMap THEN MapStr(s,UpMap,1) ELSE s
Lower(s) == MapStr(s,LoMap,1)
AllIn(s,S) == \A i \in 1..Len(s) : Ch(s,i) \in S
RECURSIVE RepStr(_,_)
RepStr(s,n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s ELSE LET h == RepStr(s,n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o s
\* 1-based position of the first occurrence, 0 if none
IndexOf(s,t) == LET P == {i \in 1..(Len(s)-Len(t)+1) : SubSeq(s,i,i+Len(t)-1)=t} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
FindAny(s,t) == LET P == {i \in 1..Len(s) : Ch(s,i) \in SetOf(t)} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
IsSymbol(s) == Len(s) >= 1 /\ Len(s) <= 63 /\ Ch(s,1) \notin DigitSet /\ AllIn(s,OrdSet)
\* the ordering of character comparisons: length first, then EBCDIC
CmpStr(a,b) == IF Len(a) # Len(b) THEN Len(a)-Len(b)
               ELSE LET D == {i \in 1..Len(a) : Ch(a,i) # Ch(b,i)} IN
                    IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN Code[Ch(a,i)] - Code[Ch(b,i)]
\* ---- 32-bit words -------------------------------------------------------
P2 == [i \in 0..15 |-> 2^i]
Bit(v,i) == IF i < 16 THEN ((v % 65536) \div P2[i]) % 2 ELSE (((v \div 65536) % 65536) \div P2[i-16]) % 2
RECURSIVE SumBits(_,_,_,_)
SumBits(b,lo,hi,w) == IF lo > hi THEN 0 ELSE b[lo]*w + SumBits(b,lo+1,hi,w*2)
Combine(h,l) == IF h >= 32768 THEN (h-65536)*65536 + l ELSE h*65536 + l
OfBits(b) == Combine(SumBits(b,16,31,1), SumBits(b,0,15,1))
Bits(v) == [i \in 0..31 |-> Bit(v,i)]
WAnd(a,b) == OfBits([i \in 0..31 |-> Bit(a,i)*Bit(b,i)])
WOr(a,b) == OfBits([i \in 0..31 |-> IF Bit(a,i)+Bit(b,i) > 0 THEN 1 ELSE 0])
WXor(a,b) == OfBits([i \in 0..31 |-> (Bit(a,i)+Bit(b,i)) % 2])
WNot(a) == -1 - a
Shift(op,a,r) ==
  LET n == WAnd(r,63) s == Bit(a,31) IN
  IF n = 0 THEN a ELSE
  CASE op = "SLL" -> OfBits([i \in 0..31 |-> IF i-n >= 0 THEN Bit(a,i-n) ELSE 0])
    [] op = "SRL" -> OfBits([i \in 0..31 |-> IF i+n <= 31 THEN Bit(a,i+n) ELSE 0])
    [] op = "SRA" -> OfBits([i \in 0..31 |-> IF i+n <= 31 THEN Bit(a,i+n) ELSE s])
    \* the sign is kept; bits shifted out of the magnitude are lost
    [] op = "SLA" -> OfBits([i \in 0..31 |-> IF i = 31 THEN s ELSE IF i-n >= 0 THEN Bit(a,i-n) ELSE 0])
AddOv(a,b) == IF b > 0 /\ a > MAXI - b THEN 1 ELSE IF b < 0 /\ a < MINI - b THEN -1 ELSE 0
SubOv(a,b) == IF b < 0 /\ a > MAXI + b THEN 1 ELSE IF b > 0 /\ a < MINI + b THEN -1 ELSE 0
MulOv(a,b) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF a > 0 /\ b > 0 THEN IF a > MAXI \div b THEN 1 ELSE 0
  ELSE IF a < 0 /\ b < 0 THEN IF a = MINI \/ b = MINI THEN 1 ELSE IF -a > MAXI \div (-b) THEN 1 ELSE 0
  ELSE LET p == IF a > 0 THEN a ELSE b  q == IF a > 0 THEN b ELSE a IN
       IF p = 1 \/ q = -1 THEN 0 ELSE IF q = MINI THEN -1
       ELSE LET m == -q IN IF p > (MAXI \div m) + (IF MAXI % m = m-1 THEN 1 ELSE 0) THEN -1 ELSE 0
TruncP(a,b) == LET q == a \div b IN IF q < 0 /\ a % b # 0 THEN q+1 ELSE q   \* b > 0
TruncDiv(a,b) == IF b > 0 THEN TruncP(a,b) ELSE IF b = MINI THEN (IF a = MINI THEN 1 ELSE 0) ELSE -TruncP(a,-b)
\* number of an unsigned digit string in base 2 or 16 as a two's complement word
RECURSIVE Pad(_,_,_)
Pad(s,c,n) == IF Len(s) >= n THEN s ELSE Pad(c \o s,c,n)
HexNib(s) == SubSeq(s,1,1)
RECURSIVE HexHalf(_,_)
HexHalf(s,i) == IF i = 0 THEN 0 ELSE HexHalf(s,i-1)*16 + DigVal[Ch(s,i)]
OfHex(s) == LET p == Pad(s,"0",8) IN Combine(HexHalf(SubSeq(p,1,4),4), HexHalf(SubSeq(p,5,8),4))
OfBin(s) == LET p == Pad(s,"0",32) IN OfBits([i \in 0..31 |-> IF Ch(p,32-i)="1" THEN 1 ELSE 0])
BinOf(v) == Join([i \in 1..(32) |-> ToString(Bit(v,32-i))],1,32)
HexOf(v) == Join([i \in 1..(8) |-> Ch(HexU, 1 + Bit(v,35-4*i) * 8 + Bit(v,34-4*i) * 4 + Bit(v,33-4*i) * 2 + Bit(v,32-4*i))],1,8)
ByteOf(v,i) == LET b == Bits(v) IN SumBits(b,8*i,8*i+7,1)
\* decimal digits (no sign), -1 when it does not fit
RECURSIVE DecVal(_,_)
DecVal(s,i) == IF i = 0 THEN 0 ELSE LET h == DecVal(s,i-1) d == DigVal[Ch(s,i)] IN
               IF h < 0 \/ h > 214748364 \/ (h = 214748364 /\ d > 7) THEN -1 ELSE h*10 + d
=============================================================================
