-------------------------- MODULE Trace_TextSync --------------------------
(* Validates histories recorded from the real text synchronisation against TextSync. *)
EXTENDS TextSync, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, k, docs
vars == <<ci, k, docs>>
Init == /\ ci \in 1..Len(Cases) /\ k = 0
        /\ docs = [d \in ToSet(Cases[ci].docs) |-> Closed]
Next == /\ k < Len(Cases[ci].steps)
        /\ docs' = Step(docs, Cases[ci].steps[k+1])
        /\ k' = k + 1 /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
\* after every notification the server holds exactly the client's documents
Conforms == k > 0 => \A d \in DOMAIN docs : LET o == Cases[ci].obs[k][d] IN
                                            o.open = docs[d].open /\ o.text = docs[d].text
=============================================================================
