--------------------------- MODULE Trace_SymDeps ---------------------------
(* Recorded assemblies: every symbol whose definition does not depend on a   *)
(* cyclic or undefined one has the value of its defining expression; cyclic  *)
(* definitions are reported, and only those; so are undefined symbols.       *)
EXTENDS SymDeps, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, exp
vars == <<ci,exp>>
OK == [ok |-> TRUE]
Todo == [ok |-> TRUE, todo |-> TRUE]
Lines(c,code) == {d.l : d \in {c.diags[i] : i \in {i \in DOMAIN c.diags : c.diags[i].c = code}}}
Bases(P,v) == {[s |-> P[k].lab, n |-> v.b[k]] : k \in {k \in DOMAIN P : v.b[k] # 0}}
SameVal(P,v,r) == IF Bases(P,v) = {} THEN r.k = "abs" /\ r.v = v.c
                  ELSE r.k = "rel" /\ r.v = v.c /\ ~r.unres /\ {r.b[i] : i \in DOMAIN r.b} = Bases(P,v) /\ Len(r.b) = Cardinality(Bases(P,v))
LenOf(P,lay,env,k) == CASE P[k].op = "EQU" -> EquLen(P,lay,k)
                    [] P[k].op = "DS" -> IF P[k].form = "dup" THEN 1 ELSE env.size[k]
                    [] OTHER -> 1
(* EBCDIC U *)
TypeU == 228
Judge(c) ==
  LET P == c.prog IN
  CHOOSE x \in {LET lay == Layout(P) IN
  LET env == Fix(P,lay,StrictU,Env0(P))
      envz == Fix(P,lay,StrictZ,Env0(P))
      cyc == OnCycle(P,lay)
      X == Closure([k \in DOMAIN P |-> Ext(P,lay,k)])
      R == {k \in DOMAIN P : k \in Lines(c,"E033")}
      U == {k \in DOMAIN P : Undefined(P,lay,k)}
      E == {k \in DOMAIN P : k \in Lines(c,"E010")}
      Same(i,j) == i \in X[j] /\ j \in X[i]
      values == {n \in DOMAIN c.sym : LET k == lay.sy[n] IN k # 0 /\ Known(P,lay,env,k) /\ ~SameVal(P,Value(P,lay,env,k),c.sym[n])}
      lens == {n \in DOMAIN c.sym : LET k == lay.sy[n] IN k # 0 /\ LenOf(P,lay,env,k) >= 0 /\ ~(c.sym[n].len = LenOf(P,lay,env,k))}
      types == {n \in DOMAIN c.sym : LET k == lay.sy[n] IN k # 0 /\ P[k].op = "EQU" /\ c.sym[n].type # (IF P[k].ty = 0 THEN TypeU ELSE P[k].ty)}
      \* a cycle through storage sizes may be noticed at a later statement that defines an address
      Noticed(r) == P[r].op # "EQU" \/ (P[r].lab \in DOMAIN c.sym /\ c.sym[P[r].lab].k = "rel")
      Storage(k) == \E j \in DOMAIN P : P[j].op = "DS" /\ Same(j,k)
      missing == {k \in cyc : X[k] \cap U = {} /\ ~\E r \in R : Same(k,r) \/ (Noticed(r) /\ Storage(k))}
      spurious == {r \in R : ~\E k \in DOMAIN P : Pending(P,envz,k) /\ (Same(k,r) \/ (Noticed(r) /\ k \in X[k] /\ Storage(k)))}
      counters == \E k \in DOMAIN P : P[k].op = "LOCTR"
      undefs == {k \in E \ U : ~counters \/ Known(P,lay,env,k)} \cup ((U \ R) \ E)
      others == {d \in {c.diags[i] : i \in DOMAIN c.diags} : d.c \notin {"E033","E010"} /\ ~(d.l \in DOMAIN P /\ Pending(P,env,d.l))}
  IN IF values = {} /\ lens = {} /\ types = {} /\ missing = {} /\ spurious = {} /\ undefs = {} /\ others = {} THEN OK
     ELSE [ok |-> FALSE, values |-> [n \in values |-> LET v == Value(P,lay,env,lay.sy[n]) IN <<v.c,Bases(P,v),c.sym[n]>>], lens |-> [n \in lens |-> <<LenOf(P,lay,env,lay.sy[n]),c.sym[n]>>],
           types |-> types, cycles_not_reported |-> missing, cycles_reported_wrongly |-> spurious, undefined_wrong |-> undefs, other_diagnostics |-> others]} : TRUE
Init == ci \in 1..Len(Cases) /\ exp = Todo
Next == /\ exp = Todo
        /\ \E x \in {Judge(Cases[ci])} : exp' = x
        /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
Conforms == exp \in {OK,Todo}
=============================================================================
