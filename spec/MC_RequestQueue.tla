--------------------------- MODULE MC_RequestQueue --------------------------
(* All interleavings of producers, worker and a finishing caller.            *)
EXTENDS RequestQueue, TLC
CONSTANTS MaxReq, Files, Servers
VARIABLES S, hist, closed
vars == <<S,hist,closed>>
Kinds == {"edit","query"}
Init == S = Q0 /\ hist = <<>> /\ closed = {}
NextId == Len(hist) + 1
DoAdd == /\ NextId <= MaxReq /\ CanAdd(S)
         /\ \E s \in Servers \ closed, f \in Files, k \in Kinds :
              LET r == [id |-> NextId, s |-> s, f |-> f, k |-> k, v |-> TRUE] IN S' = Add(S,r) /\ hist' = Append(hist,r)
         /\ UNCHANGED closed
DoPop == CanPop(S) /\ S' = Pop(S) /\ UNCHANGED <<hist,closed>>
DoEnd == S.run.id # 0 /\ S' = EndRun(S) /\ UNCHANGED <<hist,closed>>
DoFin == \E s \in Servers \ closed : CanFin(S) /\ S' = Fin(S,s) /\ UNCHANGED <<hist,closed>>
DoFinStep == CanFinStep(S) /\ S' = FinStep(S) /\ closed' = (IF Mine(S) = {} THEN closed \cup {S.fin} ELSE closed) /\ UNCHANGED hist
DoFinEnd == S.frun.id # 0 /\ S' = FinEnd(S) /\ UNCHANGED <<hist,closed>>
Next == DoAdd \/ DoPop \/ DoEnd \/ DoFin \/ DoFinStep \/ DoFinEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(DoPop) /\ WF_vars(DoEnd) /\ WF_vars(DoFinStep) /\ WF_vars(DoFinEnd)
Ids == {hist[i].id : i \in DOMAIN hist}
Pos(id) == CHOOSE i \in DOMAIN S.started : S.started[i] = id
Started == {S.started[i] : i \in DOMAIN S.started}
Once == \A i, j \in DOMAIN S.started : i # j => S.started[i] # S.started[j]
InOrder == \A a, b \in Started : a < b /\ hist[a].s = hist[b].s => Pos(a) < Pos(b)
WorkerOrder == \A a, b \in Started : a < b /\ hist[a].s \notin closed \cup {S.fin} /\ hist[b].s \notin closed \cup {S.fin} => Pos(a) < Pos(b)
Nothing == \A i \in DOMAIN S.q : S.q[i].id \in Ids \ Started
Kept == Ids = Started \cup {S.q[i].id : i \in DOMAIN S.q}
\* the latest edit of a file is never started cancelled by the worker, nor cancelled while it runs unless its server is being finished
Newest(r) == \A i \in DOMAIN hist : hist[i].id > r.id /\ hist[i].f = r.f => hist[i].k \notin Parsing
NewestWanted == S.run.id # 0 /\ Newest(S.run) /\ S.fin # S.run.s => ~S.cx
Superseded == S.run.id # 0 /\ S.run.f # "" /\ ~Newest(S.run) => (S.cx \/ \E i \in DOMAIN hist : hist[i].id > S.run.id /\ hist[i].f = S.run.f /\ hist[i].k \in Parsing)
\* an edit that arrives while a request of its file runs stops that request
StopsRunning == [][ \A r \in {S'.run} : (r.id # 0 /\ r.id = S.run.id /\ Len(hist') > Len(hist) /\ r.f # "" /\ hist'[Len(hist')].f = r.f /\ hist'[Len(hist')].k \in Parsing) => S'.cx ]_vars
ClosedQuiet == \A s \in closed : S.run.s # s /\ \A i \in DOMAIN S.q : S.q[i].s # s
Sound == Once /\ InOrder /\ Nothing /\ Kept /\ NewestWanted /\ ClosedQuiet
AllRun == [](\A i \in 1..MaxReq : i <= Len(hist) => <>(\E j \in DOMAIN S.done : S.done[j] = i))
=============================================================================
