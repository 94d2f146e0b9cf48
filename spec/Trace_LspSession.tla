-------------------------- MODULE Trace_LspSession --------------------------
(* Recorded sessions.  An odd message that carries an id may be answered with *)
(* an error; every other answer must be the one of LspLifecycle.              *)
EXTENDS LspLifecycle, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, i, j, st, exp
vars == <<ci,i,j,st,exp>>
OK == [ok |-> TRUE]
C == Cases[ci]
Next1 == IF j <= Len(C.resp) THEN C.resp[j] ELSE [id |-> "", k |-> "none"]
Init == ci \in 1..Len(Cases) /\ i = 1 /\ j = 1 /\ st = S0 /\ exp = OK
Msg == /\ exp = OK /\ i <= Len(C.msgs) /\ i' = i + 1 /\ UNCHANGED ci
       /\ \E m \in {C.msgs[i]} : \E n \in {Handle(st,m)} :
          /\ st' = n
          /\ IF Len(n.resp) > Len(st.resp)
             THEN /\ j' = j + 1
                  /\ exp' = IF Next1 = [id |-> m.id, k |-> "result"] THEN OK ELSE [ok |-> FALSE, msg |-> m, want |-> [id |-> m.id, k |-> "result"], got |-> Next1]
             ELSE /\ exp' = OK
                  /\ j' = IF ~st.exit /\ m.k = "odd" /\ m.id # "" /\ Next1.id = m.id /\ Next1.k = "error" THEN j + 1 ELSE j
Rest == \A h \in j..Len(C.resp) : st.exit
End == /\ exp = OK /\ i = Len(C.msgs) + 1 /\ i' = i + 1 /\ UNCHANGED <<ci,j,st>>
       /\ exp' = IF ~Rest THEN [ok |-> FALSE, unexpected |-> Next1]
                 ELSE IF ~C.framed THEN [ok |-> FALSE, framed |-> FALSE]
                 ELSE IF C.ret # Result(st) THEN [ok |-> FALSE, ret |-> C.ret, want |-> Result(st)] ELSE OK
Next == Msg \/ End
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
