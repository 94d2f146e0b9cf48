------------------------------ MODULE Records ------------------------------
(* From records to statements: statement field, continuation column and      *)
(* resume column, remarks, the standard and the alternative format of        *)
(* operands; the source of records is the file and the queue of records      *)
(* inserted by AINSERT, which AREAD and the statement reader both consume.   *)
EXTENDS HlasmStr
CONSTANTS End, Resume   \* last column of the statement field (71), column where continuation records resume (16)
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Lower2(a,b) == IF a < b THEN a ELSE b
\* ---- one record ---------------------------------------------------------
FieldOf(r) == SubSeq(r,1,Lower2(Len(r),End))
ResumeOf(r) == IF Len(r) < Resume THEN "" ELSE SubSeq(r,Resume,Lower2(Len(r),End))
Continued(r) == Len(r) > End /\ Ch(r,End+1) # " "
IsComment(r) == (Len(r) >= 1 /\ Ch(r,1) = "*") \/ (Len(r) >= 2 /\ SubSeq(r,1,2) = ".*")
\* ---- the source of records: inserted ones first --------------------------
Source(file) == [q |-> <<>>, f |-> file]
Empty(s) == s.q = <<>> /\ s.f = <<>>
First(s) == IF s.q # <<>> THEN Head(s.q) ELSE Head(s.f)
Drop(s) == IF s.q # <<>> THEN [s EXCEPT !.q = Tail(s.q)] ELSE [s EXCEPT !.f = Tail(s.f)]
InsertFront(s,r) == [s EXCEPT !.q = <<r>> \o @]
InsertBack(s,r) == [s EXCEPT !.q = Append(@,r)]
\* AREAD: the next record whatever it is, 80 columns
Card(r) == IF Len(r) >= 80 THEN SubSeq(r,1,80) ELSE r \o RepStr(" ",80-Len(r))
ReadValue(s) == IF Empty(s) THEN "" ELSE Card(First(s))
ReadRest(s) == IF Empty(s) THEN s ELSE Drop(s)
\* the records of the next statement and what follows it
RECURSIVE Group(_,_)
Group(s,recs) == LET r == First(s) rest == TLCEval(Drop(s)) all == Append(recs,r) IN
                 IF Continued(r) /\ ~Empty(rest) THEN Group(rest,all) ELSE [recs |-> all, src |-> rest]
NextStatement(s) == Group(s,<<>>)
\* ---- the fields of a statement -------------------------------------------
Pieces(recs) == [k \in DOMAIN recs |-> IF k = 1 THEN FieldOf(recs[1]) ELSE ResumeOf(recs[k])]
WordEnd(t,i) == LET B == {j \in i..Len(t) : Ch(t,j) = " "} IN IF B = {} THEN Len(t)+1 ELSE Least(B)
WordStart(t,i) == LET B == {j \in i..Len(t) : Ch(t,j) # " "} IN IF B = {} THEN Len(t)+1 ELSE Least(B)
Head1(recs) == LET t == FieldOf(recs[1]) a == WordEnd(t,1) b == WordStart(t,a) c == WordEnd(t,b) IN
               [label |-> SubSeq(t,1,a-1), op |-> SubSeq(t,b,c-1), rest |-> c]
Quotes(t,i) == {j \in i..Len(t) : Ch(t,j) = "'"}
Parity(P,i,carry) == (Cardinality({p \in P : p < i}) + carry) % 2
\* the operand field: up to the first blank outside of apostrophes; in the alternative format a blank
\* that follows a comma ends the operands of this record only
RECURSIVE Operands(_,_,_,_,_,_)
Operands(ps,k,i,carry,alt,acc) ==
  IF k > Len(ps) THEN acc ELSE
  LET t == ps[k]
      P == Quotes(t,i)
      B == {j \in i..Len(t) : Ch(t,j) = " " /\ Parity(P,j,carry) = 0}
      stop == IF B = {} THEN Len(t)+1 ELSE Least(B)
      now == TLCEval(acc \o SubSeq(t,i,stop-1))
  IN IF B = {} THEN Operands(ps,k+1,1,(Cardinality(P)+carry) % 2,alt,now)
     ELSE IF alt /\ now # "" /\ Ch(now,Len(now)) = "," THEN Operands(ps,k+1,1,0,alt,now)
     ELSE now
RECURSIVE Start(_,_,_)
Start(ps,k,i) == IF k > Len(ps) THEN <<k,1>> ELSE LET j == WordStart(ps[k],i) IN IF j <= Len(ps[k]) THEN <<k,j>> ELSE Start(ps,k+1,1)
OperandField(recs,alt) == LET ps == Pieces(recs) p == Start(ps,1,Head1(recs).rest) IN Operands(ps,p[1],p[2],0,alt,"")
\* operands are separated by commas outside of apostrophes and parentheses
Split(t) ==
  IF t = "" THEN <<>> ELSE
  LET P == Quotes(t,1)
      free(j) == Parity(P,j,0) = 0
      O == {j \in 1..Len(t) : Ch(t,j) = "(" /\ free(j)}
      C == {j \in 1..Len(t) : Ch(t,j) = ")" /\ free(j)}
      K == {j \in 1..Len(t) : Ch(t,j) = "," /\ free(j) /\ Cardinality({o \in O : o < j}) = Cardinality({o \in C : o < j})}
      cut == {0,Len(t)+1} \cup K
      nth(n) == CHOOSE x \in cut : Cardinality({y \in cut : y < x}) = n
  IN [n \in 1..Cardinality(K)+1 |-> SubSeq(t,nth(n-1)+1,nth(n)-1)]
=============================================================================
