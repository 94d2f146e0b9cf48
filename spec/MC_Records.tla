----------------------------- MODULE MC_Records -----------------------------
(* Two facts about the specification of records, for narrow records:         *)
(* 1. a statement broken into records anywhere, with anything in the columns *)
(*    that are not part of the statement, has the operands that were written;*)
(* 2. whatever mixture of reading statements, AREAD and AINSERT: every record *)
(*    is consumed once, the file in its order, and never while an inserted   *)
(*    record waits.                                                          *)
EXTENDS Records, TLC
CONSTANTS MaxText, MaxIns, FileLen
Alphabet == {"A",","," ","'","("}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET T == Texts(n-1) IN T \cup {t \o a : t \in T, a \in Alphabet}
Balanced(t) == Cardinality(Quotes(t,1)) % 2 = 0
\* texts that are operand fields: no blank outside of apostrophes
Field(t) == Balanced(t) /\ \A j \in 1..Len(t) : Ch(t,j) = " " => Parity(Quotes(t,1),j,0) = 1
Fields == {t \in Texts(MaxText) : t # "" /\ Field(t)}
PadTo(r,n) == r \o RepStr(" ",n-Len(r))
RECURSIVE Fold(_,_,_,_,_)
Fold(line,t,cont,num,out) == LET k == End - Len(line) IN
  IF Len(t) <= k THEN Append(out,line \o t)
  ELSE Fold(RepStr(" ",Resume-1),SubSeq(t,k+1,Len(t)),cont,num,TLCEval(Append(out,line \o SubSeq(t,1,k) \o cont \o num)))
\* in the alternative format a record may also end after the comma, with a remark
RECURSIVE Cuts(_,_)
Cuts(t,P) == {j \in 1..Len(t)-1 : Ch(t,j) = "," /\ Parity(P,j,0) = 0 /\ Ch(t,j+1) # " "}
AltFold(t,j) == LET a == Fold(" O ",SubSeq(t,1,j),"X","",<<>>) last == a[Len(a)] IN
   IF Len(last) >= End THEN <<>> ELSE
   SubSeq(a,1,Len(a)-1) \o <<PadTo(SubSeq(last \o " R,",1,Lower2(End,Len(last)+3)),End) \o "X">> \o Fold(RepStr(" ",Resume-1),SubSeq(t,j+1,Len(t)),"X","",<<>>)
VARIABLES kind, t, src, ins, used, made
vars == <<kind,t,src,ins,used,made>>
File == [n \in 1..FileLen |-> "F" \o ToString(n)]
Init == /\ src = Source(File) /\ ins = 0 /\ used = <<>> /\ made = <<>>
        /\ \/ kind = "text" /\ t \in Fields
           \/ kind = "queue" /\ t = ""
Consume == ~Empty(src) /\ used' = Append(used,<<First(src),src.q # <<>>>>) /\ src' = ReadRest(src) /\ UNCHANGED <<kind,t,ins,made>>
Insert(front) == /\ ins < MaxIns /\ ins' = ins+1
                 /\ LET r == "I" \o ToString(ins+1) IN src' = (IF front THEN InsertFront(src,r) ELSE InsertBack(src,r)) /\ made' = Append(made,<<r,front,Len(used)>>)
                 /\ UNCHANGED <<kind,t,used>>
Next == kind = "queue" /\ (Consume \/ Insert(TRUE) \/ Insert(FALSE))
Spec == Init /\ [][Next]_vars
\* 1
Joined == kind = "text" =>
   /\ \A c \in {"X",",","'"}, n \in {"","1'","ABC"} : LET r == Fold(" O ",t,c,n,<<>>) IN
        /\ NextStatement(Source(r \o <<" NEXT">>)) = [recs |-> r, src |-> Source(<<" NEXT">>)]
        /\ Ch(t,1) # " " => OperandField(r,FALSE) = t
        /\ LET rr == [r EXCEPT ![Len(r)] = IF Len(@) < End THEN @ \o " R" ELSE @] IN OperandField(rr,FALSE) = t
   /\ \A j \in Cuts(t,Quotes(t,1)) : LET r == AltFold(t,j) IN (r # <<>> => OperandField(r,TRUE) = t)
\* operands of the list put together are the text
RECURSIVE Together(_)
Together(o) == IF Len(o) = 1 THEN o[1] ELSE o[1] \o "," \o Together(Tail(o))
Parted == kind = "text" => Together(Split(t)) = t
\* 2
Waiting == {src.q[n] : n \in DOMAIN src.q} \cup {src.f[n] : n \in DOMAIN src.f}
Used == {used[n][1] : n \in DOMAIN used}
NoLoss == /\ Used \cap Waiting = {} /\ Cardinality(Used) = Len(used)
          /\ Used \cup Waiting = {File[n] : n \in DOMAIN File} \cup {made[n][1] : n \in DOMAIN made}
FilePart == SelectSeq(used,LAMBDA u : ~u[2])
FileOrder == \A n \in DOMAIN FilePart : FilePart[n][1] = File[n]
InsertedFirst == \A n \in DOMAIN used : ~used[n][2] => \A m \in DOMAIN made : made[m][3] < n => \E k \in 1..n : used[k][1] = made[m][1]
Pos(r) == CHOOSE n \in DOMAIN used : used[n][1] = r
\* two records inserted at the back are consumed in their order
BackOrder == \A m,n \in DOMAIN made : m < n /\ ~made[m][2] /\ ~made[n][2] /\ made[n][1] \in Used => made[m][1] \in Used /\ Pos(made[m][1]) < Pos(made[n][1])
\* a record inserted at the front goes before everything that waits
FrontOrder == \A m,n \in DOMAIN made : m < n /\ made[n][2] /\ made[m][1] \in Used /\ Pos(made[m][1]) > made[n][3] => made[n][1] \in Used /\ Pos(made[n][1]) < Pos(made[m][1])
=============================================================================
