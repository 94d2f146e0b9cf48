-------------------------- MODULE Trace_DapRouting --------------------------
EXTENDS DapRouting, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, i, ss, lsp, exp
vars == <<ci,i,ss,lsp,exp>>
OK == [ok |-> TRUE]
C == Cases[ci]
Ids == {C.ids[k] : k \in DOMAIN C.ids}
RECURSIVE Proj(_,_)
Proj(w,c) == IF w = <<>> THEN <<>> ELSE (IF Head(w).c = c THEN <<Head(w)>> ELSE <<>>) \o Proj(Tail(w),c)
Strip(w) == [k \in DOMAIN w |-> [t |-> w[k].t, cmd |-> w[k].cmd, rs |-> w[k].rs, n |-> w[k].n]]
Seqs(w) == \A k \in DOMAIN w : w[k].seq = k
\* behind its disconnect nothing is promised about a session but its tag
Fine(x,late,w) == IF late THEN Len(w) >= Len(x.out) /\ SubSeq(Strip(w),1,Len(x.out)) = x.out ELSE Strip(w) = x.out
Init == ci \in 1..Len(Cases) /\ i = 1 /\ ss = [s \in {Cases[ci].ids[k] : k \in DOMAIN Cases[ci].ids} |-> [x |-> NoSess, late |-> FALSE]] /\ lsp = <<>> /\ exp = OK
Late(y) == y.late \/ y.x.st = "over"
Step == /\ exp = OK /\ i <= Len(C.steps) /\ i' = i+1 /\ UNCHANGED <<ci,exp>>
        /\ \E m \in {C.steps[i]} :
           /\ lsp' = IF m.a = "lsp" THEN Append(lsp,m.q) ELSE lsp
           /\ ss' = IF m.a = "reg" THEN [ss EXCEPT ![m.s] = [x |-> Register(@.x), late |-> Late(@)]]
                    ELSE IF m.a = "dap" THEN [ss EXCEPT ![m.s] = [x |-> Deliver(@.x,m), late |-> Late(@)]] ELSE ss
End == /\ exp = OK /\ i = Len(C.steps)+1 /\ i' = i+1 /\ UNCHANGED <<ci,ss,lsp>>
       /\ exp' = LET bad == {s \in Ids : ~Fine(ss[s].x,ss[s].late,Proj(C.log,s)) \/ ~Seqs(SubSeq(Proj(C.log,s),1,Len(ss[s].x.out)))}
                     l == Proj(C.log,"lsp") IN
                 IF bad # {} THEN [ok |-> FALSE, session |-> bad, want |-> [s \in bad |-> ss[s].x.out], got |-> [s \in bad |-> Proj(C.log,s)]]
                 ELSE IF [k \in DOMAIN l |-> l[k].rs] # lsp THEN [ok |-> FALSE, lspwant |-> lsp, got |-> l]
                 ELSE IF \E k \in DOMAIN C.log : C.log[k].c \notin Ids \cup {"lsp"} THEN [ok |-> FALSE, strange |-> C.log]
                 ELSE IF C.stuck \/ ~C.framed THEN [ok |-> FALSE, stuck |-> C.stuck, framed |-> C.framed] ELSE OK
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
