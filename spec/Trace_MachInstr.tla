-------------------------- MODULE Trace_MachInstr --------------------------
(* Recorded assemblies of machine instructions: the machine walks through    *)
(* the statements with the location counter; the recorded diagnostics of     *)
(* each statement, its address and the attributes of its label must be those *)
(* of the specification.                                                     *)
EXTENDS MachInstr, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, pc, loc, exp
vars == <<ci,pc,loc,exp>>
OK == [ok |-> TRUE]
TypeI == 201
SetFrom(s) == {s[i] : i \in DOMAIN s}
Count(s,c) == Cardinality({i \in DOMAIN s : s[i] = c})
SameBag(s,t) == Len(s) = Len(t) /\ \A c \in SetFrom(s) : Count(s,c) = Count(t,c)
Codes(st) == st.diags
WrongDiags(st) == IF st.k # "m" THEN st.diags # <<>>
                  ELSE ~Unsettled(st.n,st.ops) /\ ~SameBag(st.diags,Diags(st.n,st.ops))
WrongAt(c,st,l) == LET r == c.sym[st.lab] IN r.k # "rel" \/ r.unres \/ r.v # At(st,l)
WrongAttr(c,st) == LET r == c.sym[st.lab] IN st.k = "m" /\ (r.len # Length(st.n) \/ r.type # TypeI)
Judge(c,st,l) ==
  LET w == (IF WrongDiags(st) THEN {<<"diagnostics",st.diags,IF st.k = "m" THEN Diags(st.n,st.ops) ELSE <<>>>>} ELSE {})
        \cup (IF WrongAt(c,st,l) THEN {<<"address",c.sym[st.lab],At(st,l)>>} ELSE {})
        \cup (IF WrongAttr(c,st) THEN {<<"attributes",c.sym[st.lab],Length(st.n)>>} ELSE {})
  IN IF w = {} THEN OK ELSE [ok |-> FALSE, line |-> st.line, stmt |-> st, wrong |-> w]
Init == ci \in 1..Len(Cases) /\ pc = 1 /\ loc = 0 /\ exp = IF Cases[ci].other = <<>> THEN OK ELSE [ok |-> FALSE, unexpected |-> Cases[ci].other]
Next == /\ exp = OK /\ pc <= Len(Cases[ci].stmts)
        /\ \E st \in {Cases[ci].stmts[pc]} : exp' = Judge(Cases[ci],st,loc) /\ loc' = After(st,loc)
        /\ pc' = pc + 1 /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
