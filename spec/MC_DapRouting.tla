--------------------------- MODULE MC_DapRouting ----------------------------
(* One reader feeds a queue per session; the sessions work concurrently and  *)
(* share the output.  Each receives its own messages in order.               *)
EXTENDS DapRouting, TLC
CONSTANTS Ids, MaxMsgs
Cmds == {"threads","initialize","disconnect"}
VARIABLES sess, qs, lspq, lsp, wire, n, sent
vars == <<sess,qs,lspq,lsp,wire,n,sent>>
Init == /\ sess = [i \in Ids |-> NoSess] /\ qs = [i \in Ids |-> <<>>] /\ lspq = <<>> /\ lsp = <<>> /\ wire = <<>> /\ n = 0 /\ sent = <<>>
Reg == \E i \in Ids : sess' = [sess EXCEPT ![i] = Register(@)] /\ sent' = Append(sent,[a |-> "reg", s |-> i]) /\ UNCHANGED <<qs,lspq,lsp,wire>>
Dap == \E i \in Ids, c \in Cmds :
        /\ sent' = Append(sent,[a |-> "dap", s |-> i, cmd |-> c, q |-> n+1, n |-> 0])
        /\ qs' = IF sess[i].st = "none" THEN qs ELSE [qs EXCEPT ![i] = Append(@,[cmd |-> c, q |-> n+1, n |-> 0])]
        /\ UNCHANGED <<sess,lspq,lsp,wire>>
Lsp == lspq' = Append(lspq,n+1) /\ sent' = Append(sent,[a |-> "lsp", q |-> n+1]) /\ UNCHANGED <<sess,qs,lsp,wire>>
Client == n < MaxMsgs /\ n' = n+1 /\ (Reg \/ Dap \/ Lsp)
Work(i) == /\ qs[i] # <<>> /\ sess' = [sess EXCEPT ![i] = Deliver(@,Head(qs[i]))] /\ qs' = [qs EXCEPT ![i] = Tail(@)]
           /\ wire' = wire \o [k \in 1..(Len(sess'[i].out)-Len(sess[i].out)) |-> [c |-> i, m |-> sess'[i].out[Len(sess[i].out)+k]]]
           /\ UNCHANGED <<lspq,lsp,n,sent>>
LspWork == lspq # <<>> /\ lsp' = Append(lsp,Head(lspq)) /\ lspq' = Tail(lspq) /\ UNCHANGED <<sess,qs,wire,n,sent>>
Next == Client \/ LspWork \/ \E i \in Ids : Work(i)
Spec == Init /\ [][Next]_vars
\* what each receiver makes of the messages sent to it alone
RECURSIVE Alone(_,_,_)
Alone(x,i,ms) == IF ms = <<>> THEN x
  ELSE Alone(IF Head(ms).a = "reg" /\ Head(ms).s = i THEN Register(x) ELSE IF Head(ms).a = "dap" /\ Head(ms).s = i THEN Deliver(x,Head(ms)) ELSE x,i,Tail(ms))
RECURSIVE OfLsp(_), OfWire(_,_)
OfLsp(ms) == IF ms = <<>> THEN <<>> ELSE (IF Head(ms).a = "lsp" THEN <<Head(ms).q>> ELSE <<>>) \o OfLsp(Tail(ms))
OfWire(w,i) == IF w = <<>> THEN <<>> ELSE (IF Head(w).c = i THEN <<Head(w).m>> ELSE <<>>) \o OfWire(Tail(w),i)
Own == \A i \in Ids : OfWire(wire,i) = sess[i].out /\ sess[i].out = SubSeq(Alone(NoSess,i,sent).out,1,Len(sess[i].out))
Complete == \A i \in Ids : qs[i] = <<>> => sess[i].out = Alone(NoSess,i,sent).out
LspOwn == lsp \o lspq = OfLsp(sent)
=============================================================================
