-------------------------- MODULE Trace_LibResolve --------------------------
EXTENDS LibResolve, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, i, w, exp
vars == <<ci,i,w,exp>>
OK == [ok |-> TRUE]
C == Cases[ci]
ToS(s) == {s[k] : k \in DOMAIN s}
RECURSIVE AddAll(_,_)
AddAll(v,fs) == IF fs = <<>> THEN v ELSE AddAll(AddFolder(v,Head(fs)),Tail(fs))
Step(v,m) == CASE m.a = "add" -> AddFolder(v,m.f)
               [] m.a = "rem" -> DelFolder(v,m.f)
               [] m.a = "conf" -> SetConf(v,m.f,m.c)
               [] m.a = "put" -> Put(v,m.f,m.r)
               [] m.a = "del" -> Del(v,m.f)
               [] m.a = "lim" -> [v EXCEPT !.lim = m.n]
               [] OTHER -> v
Init == /\ ci \in 1..Len(Cases) /\ i = 1 /\ exp = OK
        /\ w = AddAll(W0(Cases[ci].disk,ToS(Cases[ci].dirs),ToS(Cases[ci].plain),Cases[ci].conf,10),Cases[ci].ws)
Next == /\ exp = OK /\ i <= Len(C.steps) /\ i' = i+1 /\ UNCHANGED ci
        /\ \E m \in {C.steps[i]} : \E v \in {Step(w,m)} :
           /\ w' = v
           /\ exp' = IF m.a # "probe" THEN OK
                     ELSE LET o == C.obs[i] IN
                          IF Legal(v,m.f,m.s,C.parms,C.asks,ToS(o.d),o.n) THEN OK
                          ELSE [ok |-> FALSE, step |-> m, group |-> GroupOf(CfgOf(v,m.f),RelOf(v,m.f)), got |-> o,
                                calls |-> [k \in DOMAIN m.s |-> Call(v,CfgOf(v,m.f),GroupOf(CfgOf(v,m.f),RelOf(v,m.f)),m.f,m.s[k],k)],
                                conf |-> CfgDiags(v), lcount |-> [k \in {"L0002","L0003","L0004"} |-> AllL(v,k)]]
Spec == Init /\ [][Next]_vars
Conforms == exp = OK
=============================================================================
