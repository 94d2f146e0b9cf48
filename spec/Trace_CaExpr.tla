---------------------------- MODULE Trace_CaExpr ----------------------------
(* Recorded straight-line sequences of SETx statements: every value stored   *)
(* and every diagnostic must be the one Eval prescribes.                     *)
EXTENDS CaExpr, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, i, env, exp
vars == <<ci,i,env,exp>>
SetFrom(s) == {s[j] : j \in DOMAIN s}
\* a failed operand may additionally be reported as having no value of the required type (CE004)
Norm(S) == IF S # {"CE004"} THEN S \ {"CE004"} ELSE S
OK == [ok |-> TRUE]
RECURSIVE Load(_,_)
Load(vs,j) == IF j = 0 THEN ("RA" :> NewSet("A",FALSE)) @@ ("RB" :> NewSet("B",FALSE)) @@ ("RC" :> NewSet("C",FALSE))
              ELSE (vs[j].n :> [k |-> "set", ty |-> vs[j].ty, sc |-> vs[j].sc, v |-> vs[j].v]) @@ Load(vs,j-1)
Init == /\ ci \in 1..Len(Cases) /\ i = 0 /\ exp = OK
        /\ env = [vars |-> Load(Cases[ci].vars,Len(Cases[ci].vars)), glob |-> <<>>, syms |-> <<>>, refs |-> <<>>]
Next == /\ i < Len(Cases[ci].st) /\ exp = OK
        /\ \E s \in {Cases[ci].st[i+1]}, o \in {Cases[ci].obs[i+1]}, ev \in {env} : \E r \in {Eval(ev,s.e,s.k)} :
           /\ exp' = IF r.u \/ (r.v = o.v /\ Norm(r.d) = Norm(SetFrom(o.c))) THEN OK ELSE [ok |-> FALSE, stmt |-> i+1, expected |-> r, recorded |-> o]
           \* an open result continues with the recorded value
           /\ env' = AssignTo(env,"R" \o s.k,<<i+1>>,s.k,<<IF r.u THEN o.v ELSE r.v>>)
        /\ i' = i+1 /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
