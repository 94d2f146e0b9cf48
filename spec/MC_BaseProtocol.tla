-------------------------- MODULE MC_BaseProtocol ---------------------------
(* Whatever is written is decoded to the same bodies, also when cut short.   *)
EXTENDS BaseProtocol
CONSTANTS Bytes, MaxLen, MaxMsgs
VARIABLES bs, cut, r, s
vars == <<bs,cut,r,s>>
Bodies == UNION {[1..n -> Bytes] : n \in 1..MaxLen}
Init == /\ bs \in UNION {[1..n -> Bodies] : n \in 0..MaxMsgs}
        /\ cut \in 0..Len(Frames(bs,1)) /\ s = SubSeq(Frames(bs,1),1,cut) /\ r = R0
Next == r.ph \notin {"end","bad"} /\ r' = Step(s,r) /\ UNCHANGED <<bs,cut,s>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Prefix == Len(r.out) <= Len(bs) /\ r.out = SubSeq(bs,1,Len(r.out))
NoBad == r.ph # "bad"
Whole == r.ph = "end" /\ cut = Len(Frames(bs,1)) => r.out = bs
Complete == \A k \in 0..Len(bs) : r.ph = "end" /\ cut >= Len(Frames(SubSeq(bs,1,k),1)) => Len(r.out) >= k
Ends == <>(r.ph = "end")
=============================================================================
