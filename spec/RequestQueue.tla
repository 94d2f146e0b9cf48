---------------------------- MODULE RequestQueue ----------------------------
(* The queue between the message readers and the single worker thread.       *)
(* Grain: one action per critical section of the queue mutex plus the start  *)
(* and end of every request.                                                 *)
(*   request: [id, s (server), f (file, "" if none), k (kind)]               *)
EXTENDS Integers, Sequences, FiniteSets
Parsing == {"open","edit"}
NoReq == [id |-> 0, s |-> 0, f |-> "", k |-> "none", v |-> TRUE]
Q0 == [q |-> <<>>,          \* waiting requests, each with v: still wanted
       run |-> NoReq,       \* request in the worker
       cx |-> FALSE,        \* cancellation flag
       fin |-> 0,           \* server being finished (its caller owns the queue), 0 if none
       frun |-> NoReq,      \* request executed by the finishing caller
       started |-> <<>>, done |-> <<>>,
       flag |-> <<>>]       \* flag of each start, in the order of started
\* a new edit of the file being processed cancels the running request and makes older waiting requests of the file unwanted
CanAdd(S) == S.fin = 0
Add(S,r) ==
  LET hit == S.run.id # 0 /\ S.run.f = r.f /\ r.f # "" /\ r.k \in Parsing
      q1 == IF hit THEN [i \in DOMAIN S.q |-> IF S.q[i].f = r.f THEN [S.q[i] EXCEPT !.v = FALSE] ELSE S.q[i]] ELSE S.q
  IN [S EXCEPT !.q = Append(q1,[id |-> r.id, s |-> r.s, f |-> r.f, k |-> r.k, v |-> TRUE]), !.cx = @ \/ hit]
CanPop(S) == S.fin = 0 /\ S.run.id = 0 /\ S.q # <<>>
Pop(S) == [S EXCEPT !.run = Head(S.q), !.q = Tail(@), !.cx = ~Head(S.q).v, !.started = Append(@,Head(S.q).id), !.flag = Append(@,~Head(S.q).v)]
EndRun(S) == [S EXCEPT !.run = NoReq, !.done = Append(@,S.run.id)]
\* the caller takes the queue; a running request of the server is told to stop and waited for, others are left alone
CanFin(S) == S.fin = 0
Fin(S,s) == [S EXCEPT !.fin = s, !.cx = IF S.run.s = s THEN TRUE ELSE @]
Mine(S) == {i \in DOMAIN S.q : S.q[i].s = S.fin}
CanFinStep(S) == S.fin # 0 /\ S.frun.id = 0 /\ S.run.s # S.fin
Min(A) == CHOOSE a \in A : \A b \in A : a <= b
FinStep(S) == IF Mine(S) = {} THEN [S EXCEPT !.fin = 0]
              ELSE LET i == Min(Mine(S)) IN [S EXCEPT !.frun = S.q[i], !.q = SubSeq(@,1,i-1) \o SubSeq(@,i+1,Len(@)), !.started = Append(@,S.q[i].id), !.flag = Append(@,TRUE)]
FinEnd(S) == [S EXCEPT !.frun = NoReq, !.done = Append(@,S.frun.id)]
\* everything that happens without the environment
RECURSIVE Settle(_)
Settle(S) == IF CanFinStep(S) THEN Settle(FinStep(S)) ELSE IF CanPop(S) THEN Settle(Pop(S)) ELSE S
=============================================================================
