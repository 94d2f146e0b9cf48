---------------------------- MODULE Trace_LspNav ----------------------------
(* Recorded answers of the language server features for a program: the       *)
(* machine of LspNav reads the program, then every answer is judged.         *)
EXTENDS LspNav, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, fr, t, exp
vars == <<ci,fr,t,exp>>
OK == [ok |-> TRUE]
F(c) == Cases[c].files
Ends(h,p) == Len(h) >= Len(p) /\ SubSeq(h,Len(h)-Len(p)+1,Len(h)) = p
Loc(x) == <<x[1],x[2],x[3]>>
HoverOK(c,tab,ob,h) ==
  CASE ob[1] = "SEQ" -> h = "Sequence symbol"
    [] ob[1] = "VAR" -> \A d \in tab.vdef : d[1] = ob[2] /\ d[2] = ob[3] => h = TypeText[d[6]]
    [] ob[1] = "MAC" -> h = Documentation(F(c),tab,ob[2])
    [] ob[1] = "ORD" -> \A d \in tab.odef : d[1] = ob[2] /\ d[5] # "" => IF d[4] = "R" THEN Ends(h,"\n\n---\n\nRelocatable Symbol\n\n---\n\n" \o d[5]) ELSE h = d[4] \o " Symbol\n\n---\n\n" \o d[5]
    [] OTHER -> TRUE
Answer(c,tab,sure,unsure,q,a) ==
  LET here == TLCEval(At(tab,q))
      doubt == \E u \in unsure : u[3] = q[1] /\ u[4] = q[2] /\ u[5] <= q[3] /\ q[3] <= u[6] /\ (\A o \in here : u[5] >= o[4])
      refs == {Loc(a.r[n]) : n \in DOMAIN a.r}
      d == Loc(a.d)
      touch == {o[1] : o \in here}
  IN IF doubt THEN TRUE
     ELSE IF here = {} THEN d = Loc(q) /\ refs = {} /\ a.h = ""
     \* between two tokens that touch either is meant
     ELSE \E ob \in IF \E o1,o2 \in here : o1[5] = q[3] /\ o2[4] = q[3] THEN touch ELSE {o[1] : o \in Inner(here)} :
          /\ LET df == DefOf(tab,ob) IN
             IF df = {} THEN d = Loc(q) ELSE \E e \in df : d[1] = e[1] /\ (ob[1] = "COPY" \/ (d[2] = e[2] /\ d[3] = e[3]))
          /\ LET must == RefsOf(tab,ob)
                 may == {<<u[3],u[4],u[5]>> : u \in {v \in unsure : v[1] = ob[1] /\ v[2] = ob[Len(ob)]}} IN must \subseteq refs /\ refs \subseteq must \cup may
          /\ HoverOK(c,tab,ob,a.h)
Pos(S) == {<<o[2],o[3],o[4]>> : o \in S}
CompOK(c,tab,q,names) == IF q[4] = "I" THEN {names[n] : n \in DOMAIN names} = Offered(F(c),tab) ELSE LET W == {w[3] : w \in {v \in tab.where : v[1] = q[1] /\ v[2] = q[2]}} IN
  Cardinality(W) # 1 \/
  LET s == CHOOSE w \in W : TRUE IN
  {names[n] : n \in DOMAIN names} = IF q[4] = "&" THEN {"&" \o d[2] : d \in {e \in tab.vdef : e[1] = s}} ELSE {"." \o d[2] : d \in {e \in tab.sdef : e[1] = s}}
Judge(c,tab) ==
  LET k == Cases[c]
      occpos == TLCEval({<<o[1][1],o[2],o[3],o[4]>> : o \in tab.occ})
      \* operation codes of statements that are not processed, and tokens that are not processed
      un == TLCEval({u \in Unsure(F(c),tab) : <<u[1],u[3],u[4],u[5]>> \notin occpos})
      ops == TLCEval(UNION {{<<"OP",F(c)[f][i].op[1],f,F(c)[f][i].l,F(c)[f][i].op[2],F(c)[f][i].op[3]>> : i \in {j \in DOMAIN F(c)[f] : F(c)[f][j].op[1] # ""}} : f \in DOMAIN F(c)})
      uo == TLCEval(un \cup {u \in ops : \A o \in tab.occ : ~(o[1][1] \in {"OP","MAC"} /\ <<o[2],o[3],o[4]>> = <<u[3],u[4],u[5]>>)})
      bad == {n \in DOMAIN k.q : ~Answer(c,tab,occpos,uo,k.q[n],k.a[n])}
      badc == {n \in DOMAIN k.comp : ~CompOK(c,tab,k.comp[n],k.canswer[n])}
  IN IF bad = {} /\ badc = {} THEN OK ELSE
     [ok |-> FALSE, wrong |-> IF bad # {} THEN LET n == Least(bad) IN <<k.q[n],k.a[n],{o[1] : o \in At(tab,k.q[n])},{RefsOf(tab,o[1]) : o \in At(tab,k.q[n])},{DefOf(tab,o[1]) : o \in At(tab,k.q[n])}>> ELSE LET n == Least(badc) IN <<k.comp[n],k.canswer[n]>>]
Init == ci \in 1..Len(Cases) /\ fr = Start(F(ci)) /\ t = Empty0 /\ exp = OK
Next == /\ exp = OK /\ fr # <<>> /\ UNCHANGED ci
        /\ \E r \in {Step(F(ci),fr,t)} : fr' = r.fr /\ t' = r.t /\ exp' = IF r.fr = <<>> THEN Judge(ci,r.t) ELSE OK
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
