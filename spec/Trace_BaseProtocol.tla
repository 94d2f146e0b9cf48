------------------------- MODULE Trace_BaseProtocol -------------------------
(* Recorded runs of the reader and writer.  valid: body -> canonical bytes.  *)
EXTENDS BaseProtocol, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, r, exp
vars == <<ci,r,exp>>
OK == [ok |-> TRUE]
Canon(c,b) == {v.c : v \in {x \in {c.valid[i] : i \in DOMAIN c.valid} : x.b = b}}
RECURSIVE Msgs(_,_,_)
Msgs(c,out,i) == IF i > Len(out) THEN <<>> ELSE LET k == Canon(c,out[i]) IN (IF k = {} THEN <<>> ELSE <<CHOOSE x \in k : TRUE>>) \o Msgs(c,out,i+1)
Judge(c,x) == LET m == Msgs(c,x.out,1) IN
   IF x.ph = "bad" THEN OK
   ELSE IF c.got = m /\ c.out = Frames(m,1) THEN OK ELSE [ok |-> FALSE, expected |-> m, got |-> c.got, written |-> c.out]
Init == ci \in 1..Len(Cases) /\ r = R0 /\ exp = OK
Next == /\ exp = OK /\ r.ph \notin {"end","bad"}
        /\ \E x \in {Step(Cases[ci].in,r)} : r' = x /\ exp' = IF x.ph \in {"end","bad"} THEN Judge(Cases[ci],x) ELSE OK
        /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
