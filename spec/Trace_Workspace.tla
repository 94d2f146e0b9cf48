-------------------------- MODULE Trace_Workspace ---------------------------
EXTENDS Workspace, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, i, w, exp
vars == <<ci,i,w,exp>>
OK == [ok |-> TRUE]
C == Cases[ci]
Step(v,m) ==
  IF m.a = "open" THEN Open(v,m.f,m.s) ELSE IF m.a = "change" THEN Change(v,m.f,m.s) ELSE IF m.a = "close" THEN Close(v,m.f)
  ELSE IF m.a = "put" THEN Disk(v,m.f,m.s) ELSE IF m.a = "del" THEN Delete(v,m.f) ELSE Config(v,m.c)
Init == ci \in 1..Len(Cases) /\ i = 1 /\ w = W0(Cases[ci].disk,Cases[ci].map,Cases[ci].grps) /\ exp = OK
Next == /\ exp = OK /\ i <= Len(C.steps) /\ i' = i+1 /\ UNCHANGED ci
        /\ \E v \in {Step(w,C.steps[i])} :
           /\ w' = v
           /\ \E o \in {{C.obs[i][k] : k \in DOMAIN C.obs[i]}} :
              exp' = IF {d \in View(v) : d.f \notin v.unk} = {d \in o : d.f \notin v.unk} THEN OK
                     ELSE [ok |-> FALSE, step |-> C.steps[i], want |-> View(v), got |-> o, ignored |-> v.unk]
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
