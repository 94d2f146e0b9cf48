------------------------- MODULE Trace_RequestQueue -------------------------
(* Scripted schedules of the real request queue.                             *)
EXTENDS RequestQueue, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, n, S, exp
vars == <<ci,n,S,exp>>
OK == [ok |-> TRUE]
Do(st,x) == CASE st.a = "add" -> Add(x,[id |-> st.id, s |-> st.s, f |-> st.f, k |-> st.k])
              [] st.a = "rel" -> EndRun(x)
              [] st.a = "relf" -> FinEnd(x)
              [] st.a = "fin" -> Fin(x,st.s)
StartsByWorker(x,o) == \A i \in DOMAIN x.started : i <= Len(o.flags) /\ o.flags[i].id = x.started[i]
FlagOf(x,o) == \A i \in DOMAIN x.started : x.flag[i] = TRUE \/ o.flags[i].c = FALSE
FlagUnwanted(x,o) == x.run.id = 0 \/ x.fin # 0 \/ o.cancel = x.cx
Judge(o,x) == IF /\ o.run = x.run.id /\ o.frun = x.frun.id /\ o.fin = (x.fin # 0) /\ o.done = x.done /\ Len(o.flags) = Len(x.started)
                 /\ StartsByWorker(x,o) /\ FlagOf(x,o)
                 \* the flag matters while the worker runs a request
                 /\ (x.run.id = 0 \/ o.cancel = x.cx)
              THEN OK ELSE [ok |-> FALSE, model |-> x, recorded |-> o]
Init == ci \in 1..Len(Cases) /\ n = 0 /\ S = Q0 /\ exp = OK
Next == /\ n < Len(Cases[ci].steps) /\ exp = OK
        /\ \E S1 \in {Settle(Do(Cases[ci].steps[n+1],S))} :
             /\ S' = S1 /\ n' = n+1
             /\ exp' = Judge(Cases[ci].obs[n+1],S1)
        /\ UNCHANGED ci
Finish == /\ n = Len(Cases[ci].steps) /\ exp = OK
          /\ n' = n+1
          /\ exp' = IF Cases[ci].overlap \/ Cases[ci].stuck \/ Cardinality({Cases[ci].final[i] : i \in DOMAIN Cases[ci].final}) # Len(Cases[ci].final)
                       \/ Len(Cases[ci].final) # Cardinality({i \in DOMAIN Cases[ci].steps : Cases[ci].steps[i].a = "add"})
                    THEN [ok |-> FALSE, final |-> Cases[ci].final] ELSE OK
          /\ UNCHANGED <<ci,S>>
Spec == Init /\ [][Next \/ Finish]_vars
Conforms == exp = OK
=============================================================================
