--------------------------- MODULE Trace_Producers --------------------------
(* Several producers without synchronisation: the executed sequence is an    *)
(* interleaving of the producers' sequences, each request exactly once.      *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, n, last, ok
vars == <<ci,n,last,ok>>
Init == ci \in 1..Len(Cases) /\ n = 0 /\ last = [p \in 1..4 |-> 0] /\ ok = ~Cases[ci].overlap
Next == /\ ok
        /\ \/ /\ n < Len(Cases[ci].log)
              /\ LET e == Cases[ci].log[n+1] IN ok' = (e.n = last[e.p] + 1) /\ last' = [last EXCEPT ![e.p] = e.n]
              /\ n' = n+1
           \/ /\ n = Len(Cases[ci].log)
              /\ ok' = (\A p \in 1..Cases[ci].p : last[p] = Cases[ci].n) /\ n' = n+1 /\ UNCHANGED last
        /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
