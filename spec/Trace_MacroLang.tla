-------------------------- MODULE Trace_MacroLang ---------------------------
(* Recorded runs of whole programs: the log and the diagnostics must be      *)
(* those of the machine of MacroLang.                                        *)
EXTENDS MacroLang, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, m, exp
vars == <<ci,m,exp>>
MaxSteps == 20000
SetFrom(s) == {s[j] : j \in DOMAIN s}
Norm(S) == IF S # {"CE004"} THEN S \ {"CE004"} ELSE S
OK == [ok |-> TRUE]
SameLog(a,b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
Judge(c,x) == IF SameLog(x.log,c.log) /\ Norm(x.d) = Norm(SetFrom(c.codes)) THEN OK
              ELSE [ok |-> FALSE, log |-> x.log, recorded |-> c.log, codes |-> x.d, recordedCodes |-> c.codes, fr |-> x.fr]
Init == ci \in 1..Len(Cases) /\ m = Mach0 /\ exp = OK
Next == /\ ~m.done /\ exp = OK /\ m.n >= 0 /\ m.n < MaxSteps
        /\ \E m1 \in {m} : \E m2 \in {Step(Cases[ci].prog,m1)} :
             /\ m' = m2
             /\ exp' = IF m2.done THEN Judge(Cases[ci],m2) ELSE OK
        /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
View == <<ci,m.n,exp>>
Conforms == exp = OK
Modelled == m.n >= 0
=============================================================================
