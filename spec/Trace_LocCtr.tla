---------------------------- MODULE Trace_LocCtr ----------------------------
(* Recorded assemblies: every label has the address LocCtr assigns to it.    *)
EXTENDS LocCtr, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, m, exp
vars == <<ci,m,exp>>
OK == [ok |-> TRUE]
SetFrom(s) == {s[j] : j \in DOMAIN s}
Same(x,r) == IF x.rel = 0 THEN r.k = "abs" /\ r.v = x.v
             ELSE r.k = "rel" /\ r.v = x.v /\ ~r.unres /\ Len(r.b) = 1 /\ r.b[1].n = 1 /\ r.b[1].s = x.s
Judge(c,x) == LET bad == {n \in DOMAIN c.sym : n \in DOMAIN x.map /\ ~Same(x.map[n],c.sym[n])} IN
              IF bad = {} /\ x.d = SetFrom(c.codes) THEN OK
              ELSE [ok |-> FALSE, bad |-> [n \in bad |-> <<x.map[n],c.sym[n]>>], codes |-> x.d, recorded |-> c.codes]
Init == ci \in 1..Len(Cases) /\ m = L0 /\ exp = OK
Next == /\ m.ph # "done" /\ exp = OK /\ ~m.u
        /\ \E m1 \in {m} : \E m2 \in {Step(Cases[ci].prog,m1)} :
             /\ m' = m2
             /\ exp' = IF m2.ph = "done" THEN Judge(Cases[ci],m2) ELSE OK
        /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
View == <<ci,m.ph,m.i,m.s,m.l,exp>>
Conforms == exp = OK
Modelled == ~m.u
=============================================================================
