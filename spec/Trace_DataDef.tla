--------------------------- MODULE Trace_DataDef ---------------------------
(* Recorded assemblies of data definitions: the machine walks through the    *)
(* statements with the location counter, the recorded diagnostics, addresses *)
(* and attributes must be those of the specification.                        *)
EXTENDS DataDef, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, pc, loc, exp
vars == <<ci,pc,loc,exp>>
OK == [ok |-> TRUE]
Unknown == -1
Ebcdic == [A |-> 193, B |-> 194, C |-> 195, D |-> 196, E |-> 197, F |-> 198, G |-> 199, H |-> 200, K |-> 210, L |-> 211, P |-> 215, Q |-> 216, R |-> 217, S |-> 226, V |-> 229, X |-> 231, Y |-> 232, Z |-> 233, U |-> 228]
Code(t) == IF t = "@" THEN 124 ELSE Ebcdic[t]
(* a malformed value and a wrong rounding mode are one kind of error *)
Class(d) == IF d = "D026" THEN "D010" ELSE d
Diags(c,line) == {Class(c.diags[i].c) : i \in {i \in DOMAIN c.diags : c.diags[i].l = line}}
Expected(st) == {Class(d) : d \in UNION {Errors(st.ops[i],st.op) : i \in DOMAIN st.ops}}
Opq(o) == o.sc # <<>> /\ TypeOf(o).sc.k = "ign"
(* the answer to a question about an attribute of the label *)
Answer(o,a) == CASE a = "L" -> LengthAttr(o) [] a = "S" -> ScaleAttr(o) [] a = "I" -> IntegerAttr(o)
Wrong(c,st,l) ==
  LET r == c.sym[st.lab]
      o == st.ops[1]
      good == Accepted(o,st.op)
  IN [addr |-> IF r.k = "rel" /\ r.v = l /\ ~r.unres THEN {} ELSE {<<"address",l,r>>},
      attr |-> IF ~good \/ (r.len = LengthAttr(o) /\ r.type = Code(TypeAttr(o))) THEN {} ELSE {<<"length, type",LengthAttr(o),TypeAttr(o),r>>},
      qs |-> {<<"attribute",q.a,q.how,q.v,Answer(o,q.a)>> : q \in {q \in {st.qs[i] : i \in DOMAIN st.qs} : good /\ (q.a = "L" \/ ~Opq(o)) /\ q.v # Answer(o,q.a)}}]
Judge(c,st,l) ==
  LET d == IF Diags(c,st.line) = Expected(st) THEN {} ELSE {<<"diagnostics",Diags(c,st.line),Expected(st)>>}
      w == IF st.lab = "" \/ l = Unknown THEN [addr |-> {}, attr |-> {}, qs |-> {}] ELSE Wrong(c,st,LabelAt(st,l))
      x == d \cup w.addr \cup w.attr \cup w.qs
  IN IF x = {} THEN OK ELSE [ok |-> FALSE, line |-> st.line, loc |-> l, wrong |-> x]
(* storage of an incorrect statement is left open: the next label tells where the counter is *)
Where(c,st,l) == IF l # Unknown THEN l ELSE IF st.lab # "" /\ c.sym[st.lab].k = "rel" THEN c.sym[st.lab].v ELSE Unknown
Follow(st,l) == IF l = Unknown \/ ~AllAccepted(st) THEN Unknown ELSE NextLoc(st,l)
(* no diagnostics but those of the statements and of questions about incorrect ones *)
Judged(c) == LET ls == {c.stmts[i].line : i \in DOMAIN c.stmts} \cup {c.free[i] : i \in DOMAIN c.free} IN
  LET s == {c.diags[i] : i \in {i \in DOMAIN c.diags : c.diags[i].l \notin ls}} IN IF s = {} THEN OK ELSE [ok |-> FALSE, unexpected |-> s]
Init == ci \in 1..Len(Cases) /\ pc = 1 /\ loc = 0 /\ exp = Judged(Cases[ci])
Next == /\ exp = OK /\ pc <= Len(Cases[ci].stmts)
        /\ \E st \in {Cases[ci].stmts[pc]} : \E l \in {Where(Cases[ci],st,loc)} : exp' = Judge(Cases[ci],st,l) /\ loc' = Follow(st,l)
        /\ pc' = pc + 1 /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
