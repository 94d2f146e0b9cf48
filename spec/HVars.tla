------------------------------- MODULE HVars --------------------------------
(* Variable symbols: SET symbols (local, global, scalar, subscripted) and    *)
(* macro parameters with their sublist structure.                            *)
EXTENDS HlasmStr
\* ---- macro data: [m|->"s",v|->text] or [m|->"c",x|->sublist] -------------
Sing(s) == [m |-> "s", v |-> s]
Empty == Sing("")
Comp(x) == [m |-> "c", x |-> x]
RECURSIVE DVal(_)
RECURSIVE DJoin(_,_)
DJoin(x,i) == IF i > Len(x) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o DVal(x[i]) \o DJoin(x,i+1)
DVal(d) == IF d.m = "s" THEN d.v ELSE "(" \o DJoin(d.x,1) \o ")"
DIth(d,i) == IF d.m = "s" THEN (IF i = 1 THEN d ELSE Empty) ELSE IF i >= 1 /\ i <= Len(d.x) THEN d.x[i] ELSE Empty
DNum(d) == IF d.m = "s" THEN (IF d.v = "" THEN 0 ELSE 1) ELSE Len(d.x)
RECURSIVE DAt(_,_,_)
DAt(d,s,i) == IF i > Len(s) THEN d ELSE DAt(DIth(d,s[i]),s,i+1)
\* text to sublist structure; "" -> empty, "(a,b)" -> sublist, anything else -> itself.
\* Returns [d,i,ok]: parsing from position i (on the opening parenthesis).
RECURSIVE PElems(_,_,_)
RECURSIVE PText(_,_,_)
\* an apostrophe after an attribute letter does not start a quoted string
AttrMark(s,i) == i > 1 /\ Ch(s,i-1) \in SetOf("LISTDONKlistdonk") /\ (i = 2 \/ Ch(s,i-2) \notin OrdSet)
NextQuote(s,i) == LET P == {j \in i..Len(s) : Ch(s,j) = "'"} IN IF P = {} THEN Len(s)+1 ELSE CHOOSE j \in P : \A k \in P : j <= k
\* end of a plain element: first ',' or ')' outside parentheses and quoted strings
PText(s,i,n) == IF i > Len(s) THEN i
                ELSE IF Ch(s,i) = "'" /\ ~AttrMark(s,i) THEN LET e == NextQuote(s,i+1) IN IF e > Len(s) THEN e ELSE PText(s,e+1,n)
                ELSE IF Ch(s,i) = "(" THEN PText(s,i+1,n+1)
                ELSE IF Ch(s,i) = ")" THEN (IF n = 0 THEN i ELSE PText(s,i+1,n-1))
                ELSE IF Ch(s,i) = "," /\ n = 0 THEN i ELSE PText(s,i+1,n)
PElems(s,i,acc) ==  \* i: start of an element
  IF i > Len(s) THEN [ok |-> FALSE, d |-> Empty, i |-> i]
  ELSE LET q == IF Ch(s,i) = "(" THEN PElems(s,i+1,<<>>) ELSE [ok |-> FALSE, d |-> Empty, i |-> i]
           r == IF q.ok /\ q.i <= Len(s) /\ Ch(s,q.i) \in {",",")"} THEN q
                ELSE LET e == PText(s,i,0) IN [ok |-> TRUE, d |-> Sing(SubSeq(s,i,e-1)), i |-> e] IN
       IF r.i > Len(s) THEN [ok |-> FALSE, d |-> Empty, i |-> i]
       ELSE IF Ch(s,r.i) = "," THEN PElems(s,r.i+1,Append(acc,r.d))
       ELSE [ok |-> TRUE, d |-> Comp(Append(acc,r.d)), i |-> r.i+1]
ToData(s) == IF s = "" THEN Empty ELSE IF Ch(s,1) # "(" \/ Ch(s,Len(s)) # ")" THEN Sing(s)
             ELSE LET r == PElems(s,2,<<>>) IN IF r.ok /\ r.i = Len(s)+1 THEN r.d ELSE Sing(s)
\* ---- environments ---------------------------------------------------------
\* env = [vars: name -> [k:"set",ty,sc,v] | [k:"ref"] | [k:"par",d] | [k:"sys",d], glob: name -> [k:"set",...], syms: name -> [ty,len]]
DefVal(ty) == IF ty = "A" THEN 0 ELSE IF ty = "B" THEN 0 ELSE ""
NewSet(ty,sc) == [k |-> "set", ty |-> ty, sc |-> sc, v |-> <<>>]
Has(env,n) == n \in DOMAIN env.vars
Get(env,n) == LET w == env.vars[n] IN IF w.k = "ref" THEN env.glob[n] ELSE w
Put(env,n,w) == IF env.vars[n].k = "ref" THEN [env EXCEPT !.glob = (n :> w) @@ @] ELSE [env EXCEPT !.vars = (n :> w) @@ @]
\* may the symbol be read with these subscripts? returns the diagnostic or ""
ReadErr(env,n,s) ==
  IF ~Has(env,n) THEN "E010"
  ELSE LET w == Get(env,n) IN
    IF w.k = "set" THEN
      IF Len(s) > 1 THEN "E020" ELSE IF w.sc # (Len(s) = 0) THEN "E013" ELSE IF ~w.sc /\ s[1] < 1 THEN "E012" ELSE ""
    ELSE IF \E i \in 1..Len(s) : s[i] < 1 /\ ~(w.k = "sys" /\ i = 1 /\ s[i] = 0) THEN "E012" ELSE ""
SetAt(w,s) == LET i == IF w.sc THEN 1 ELSE s[1] IN IF i \in DOMAIN w.v THEN w.v[i] ELSE DefVal(w.ty)
SysAt(d,s) == IF s = <<>> THEN d ELSE DAt(d,<<s[1]+1>> \o Tail(s),1)
\* [ty,v,d]: typed value; ty="U" when the read is in error
VRead(env,n,s) ==
  LET e == ReadErr(env,n,s) IN
  IF e # "" THEN [ty |-> "U", v |-> "", d |-> {e}]
  ELSE LET w == Get(env,n) IN
    CASE w.k = "set" -> [ty |-> w.ty, v |-> SetAt(w,s), d |-> {}]
      [] w.k = "par" -> [ty |-> "C", v |-> DVal(DAt(w.d,s,1)), d |-> {}]
      [] w.k = "sys" -> [ty |-> "C", v |-> DVal(SysAt(w.d,s)), d |-> {}]
NumAttr(env,n,s) ==
  IF ~Has(env,n) THEN [v |-> 0, d |-> {"E010"}, u |-> FALSE]
  ELSE LET w == Get(env,n) IN
    [v |-> CASE w.k = "set" -> IF w.sc \/ DOMAIN w.v = {} THEN 0 ELSE CHOOSE i \in DOMAIN w.v : \A j \in DOMAIN w.v : j <= i
             [] w.k = "par" -> DNum(DAt(w.d,s,1))
             [] w.k = "sys" -> IF s = <<>> THEN DNum(w.d)-1 ELSE DNum(SysAt(w.d,s)),
     d |-> {}, u |-> FALSE]
CntAttr(env,n,s) ==
  LET e == ReadErr(env,n,s) IN
  IF e # "" THEN [v |-> 0, d |-> {e}, u |-> FALSE]
  ELSE LET w == Get(env,n) IN
    [v |-> CASE w.k = "set" -> IF w.ty = "B" THEN 1 ELSE IF w.ty = "A" THEN Len(ToString(SetAt(w,s))) ELSE Len(SetAt(w,s))
             [] w.k = "par" -> Len(DVal(DAt(w.d,s,1)))
             [] w.k = "sys" -> IF s = <<>> THEN Len(DVal(DIth(w.d,2))) ELSE Len(DVal(SysAt(w.d,s))),
     d |-> {}, u |-> FALSE]
\* declarations: GBLx / LCLx of one symbol; [env,d]
Declare(env,n,ty,sc,gbl) ==
  IF Has(env,n) THEN [env |-> env, d |-> IF env.vars[n].k \in {"par","sys"} THEN {"E052"} ELSE {"E051"}]
  ELSE IF ~gbl THEN [env |-> [env EXCEPT !.vars = (n :> NewSet(ty,sc)) @@ @], d |-> {}]
  ELSE [env |-> [env EXCEPT !.vars = (n :> [k |-> "ref"]) @@ @,
                            !.glob = IF n \in DOMAIN @ THEN @ ELSE (n :> NewSet(ty,sc)) @@ @], d |-> {}]
\* SETx of symbol n with subscripts s: the diagnostic ("" when the assignment takes place)
AssignErr(env,n,s,ty) ==
  IF Has(env,n) /\ env.vars[n].k \in {"par","sys"} THEN "E030"
  ELSE IF Len(s) > 1 THEN "E020" ELSE IF Len(s) = 1 /\ s[1] < 1 THEN "E012"
  ELSE IF ~Has(env,n) THEN ""
  ELSE LET w == Get(env,n) IN IF w.ty # ty THEN "E013" ELSE IF w.sc # (s = <<>>) THEN "E013" ELSE ""
\* vals: sequence of values assigned to consecutive elements
AssignTo(env,n,s,ty,vals) ==
  LET e1 == IF Has(env,n) THEN env ELSE [env EXCEPT !.vars = (n :> NewSet(ty,s = <<>>)) @@ @]
      w == Get(e1,n)
      base == IF w.sc THEN 1 ELSE s[1]
      nv == [i \in base..(base+Len(vals)-1) |-> vals[i-base+1]]
  IN Put(e1,n,[w EXCEPT !.v = IF w.sc THEN (1 :> vals[Len(vals)]) ELSE nv @@ @])
=============================================================================
