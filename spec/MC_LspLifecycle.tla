-------------------------- MODULE MC_LspLifecycle ---------------------------
(* reader thread, queue and worker: answers in order, one each, none lost     *)
EXTENDS LspLifecycle, FiniteSets, TLC
CONSTANTS MaxMsgs
VARIABLES sent, queue, st, reading
vars == <<sent,queue,st,reading>>
Msgs(n) == {[k |-> x, id |-> IF x \in {"req","shutdown"} THEN ToString(n) ELSE ""] : x \in {"req","note","odd","shutdown","exit"}}
Init == sent = <<>> /\ queue = <<>> /\ st = S0 /\ reading = TRUE
\* the reader checks for exit only after it queued a message, so it may read one too many
Read == /\ reading /\ Len(sent) < MaxMsgs
        /\ \E m \in Msgs(Len(sent)+1) : sent' = Append(sent,m) /\ queue' = Append(queue,m)
        /\ reading' \in {TRUE, ~st.exit} /\ UNCHANGED st
Eof == reading /\ reading' = FALSE /\ UNCHANGED <<sent,queue,st>>
Work == /\ queue # <<>> /\ st' = Handle(st,Head(queue)) /\ queue' = Tail(queue) /\ UNCHANGED <<sent,reading>>
Next == Read \/ Eof \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work) /\ WF_vars(Eof)
RECURSIVE All(_,_)
All(s,ms) == IF ms = <<>> THEN s ELSE All(Handle(s,Head(ms)),Tail(ms))
Done == ~reading /\ queue = <<>>
InOrder == All(S0,sent).resp = st.resp \o (SubSeq(All(S0,sent).resp,Len(st.resp)+1,Len(All(S0,sent).resp)))
Once == \A i,j \in DOMAIN st.resp : st.resp[i] = st.resp[j] => i = j
AllAnswered == Done => st = All(S0,sent)
Success == Done => (Result(st) = 0 <=> \E i,j \in DOMAIN sent : i < j /\ sent[i].k = "shutdown" /\ sent[j].k = "exit"
                                        /\ \A h \in 1..(j-1) : sent[h].k # "exit")
Ends == <>Done
=============================================================================
