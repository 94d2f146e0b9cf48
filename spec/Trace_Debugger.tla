--------------------------- MODULE Trace_Debugger ---------------------------
(* Recorded debugging sessions: every stop is at the statement the commands  *)
(* call for, with the call stack and the variables of that moment.           *)
(* The traced program is executed by the machine of MacroLang; statements    *)
(* carry their file f, their physical statements ph (first, last line) and   *)
(* nest, the COPY statements around them in a macro definition.              *)
EXTENDS Position, Json, IOUtils
Dbg == INSTANCE Debugger
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, i, j, x, exp
\* i: next command, j: next observation, x: [m,k,c]; k: next physical statement of the current one
vars == <<ci,i,j,x,exp>>
MaxSteps == 20000
OK == [ok |-> TRUE]
C == Cases[ci]
SetFrom(s) == {s[q] : q \in DOMAIN s}
Here(prog,m,k) == LET s == Cur(prog,m) F == Frames(prog,m,k) IN [d |-> Len(F), f |-> F[Len(F)].f, b |-> s.ph[k][1], e |-> s.ph[k][2]]
\* ---- variables ------------------------------------------------------------
Txt(ty,v) == IF ty = "A" THEN ToString(v) ELSE IF ty = "B" THEN (IF v = 1 THEN "TRUE" ELSE "FALSE") ELSE v
Ty(ty) == ty \o "_TYPE"
SetItems(n,w) == IF w.sc THEN {[n |-> n, v |-> Txt(w.ty,SetAt(w,<<>>)), t |-> Ty(w.ty)]}
                 ELSE {[n |-> n, v |-> "", t |-> Ty(w.ty)]} \cup {[n |-> n \o "/" \o ToString(q), v |-> Txt(w.ty,w.v[q]), t |-> Ty(w.ty)] : q \in DOMAIN w.v}
RECURSIVE DataItems(_,_,_)
DataItems(n,d,base) == {[n |-> n, v |-> DVal(d), t |-> "C_TYPE"]} \cup
  (IF d.m = "s" THEN {} ELSE UNION {DataItems(n \o "/" \o ToString(q-base),d.x[q],0) : q \in DOMAIN d.x})
Shown(n) == n \notin {"VPN","VPL","SYSMAC"}
Locals(sc) == UNION {LET w == sc.vars[n] IN IF w.k = "set" THEN SetItems("&" \o n,w) ELSE IF w.k = "par" THEN DataItems("&" \o n,w.d,0) ELSE IF w.k = "sys" THEN DataItems("&" \o n,w.d,1) ELSE {} :
                     n \in {y \in DOMAIN sc.vars : Shown(y)}}
Globals(m,sc) == UNION {IF sc.vars[n].k = "ref" THEN SetItems("&" \o n,m.glob[n]) ELSE {} : n \in {y \in DOMAIN sc.vars : Shown(y)}}
SymItems(m) == UNION {{[n |-> n \o "/L", v |-> ToString(m.syms[n].len), t |-> ""],[n |-> n \o "/T", v |-> m.syms[n].ty, t |-> ""]} : n \in DOMAIN m.syms}
Pre(s,p) == Len(s) >= Len(p) /\ SubSeq(s,1,Len(p)) = p
Keep(n) == ~Pre(n,"&VP") /\ (~Pre(n,"&SYS") \/ Pre(n,"&SYSLIST") \/ n \in {"&SYSNDX","&SYSNEST"})
ObsVars(o) == {y \in SetFrom(o) : Keep(y.n)}
ObsSyms(o) == {y \in SetFrom(o) : Len(y.n) > 2 /\ SubSeq(y.n,Len(y.n)-1,Len(y.n)) \in {"/L","/T"}}
\* first difference between what is shown and what there is, or ""
Diff(prog,m,k,o) ==
  LET F == Frames(prog,m,k) n == Len(F) G(q) == o[n+1-q] IN
  IF Len(o) # n \/ \E q \in 1..n : G(q).n # F[q].n \/ G(q).f # F[q].f \/ G(q).l # F[q].l \/ G(q).el # F[q].l THEN [what |-> "stack", want |-> F, got |-> [q \in DOMAIN o |-> <<o[q].n,o[q].f,o[q].l>>]]
  ELSE LET bl == {q \in 1..n : Locals(m.sc[F[q].s]) # ObsVars(G(q).v)} bg == {q \in 1..n : Globals(m,m.sc[F[q].s]) # ObsVars(G(q).g)} IN
    IF bl # {} THEN LET q == CHOOSE q \in bl : TRUE IN [what |-> "locals", frame |-> q, want |-> Locals(m.sc[F[q].s]), got |-> ObsVars(G(q).v)]
    ELSE IF bg # {} THEN LET q == CHOOSE q \in bg : TRUE IN [what |-> "globals", frame |-> q, want |-> Globals(m,m.sc[F[q].s]), got |-> ObsVars(G(q).g)]
    ELSE IF \E q \in 1..n : SymItems(m) # ObsSyms(G(q).s) THEN [what |-> "symbols", want |-> SymItems(m), got |-> ObsSyms(G(1).s)]
    ELSE [what |-> ""]
\* ---- transitions ------------------------------------------------------------
Bps(s) == LET F == {s[q].f : q \in DOMAIN s} IN [f \in F |-> LET q == CHOOSE q \in DOMAIN s : s[q].f = f /\ \A r \in DOMAIN s : s[r].f = f => r <= q IN SetFrom(s[q].l)]
Bad(r) == [ok |-> FALSE] @@ r
Ev(e) == IF j > Len(C.obs) THEN Bad([what |-> "nothing recorded", want |-> e]) ELSE IF C.obs[j].e # e THEN Bad([what |-> "event", want |-> e, got |-> C.obs[j].e]) ELSE OK
Empty0 == IF C.obs[j].fr = <<>> THEN OK ELSE Bad([what |-> "frames after the end"])
Init == /\ ci \in 1..Len(Cases) /\ i = 1 /\ j = 1 /\ exp = OK
        /\ x = [m |-> Mach0, k |-> 1, c |-> Dbg!Ctl0(Cases[ci].entry = 1,Bps(Cases[ci].bps))]
\* the program runs
Stays(y) == x' = y /\ i' = i /\ j' = j /\ exp' = OK
Run == /\ x.c.st = "run"
       /\ IF x.m.n < 0 \/ x.m.n > MaxSteps THEN FALSE   \* outside the model
          ELSE IF x.m.done THEN
            /\ x' = [x EXCEPT !.c = Dbg!Ended(@)] /\ i' = i /\ j' = j+1
            /\ exp' = IF Ev("exit") # OK THEN Bad(Ev("exit") @@ [at |-> "end"]) ELSE Empty0
          ELSE IF ~AtStmt(C.prog,x.m) THEN \E m2 \in {Step(C.prog,x.m)} : Stays([x EXCEPT !.m = m2])
          ELSE \E h \in {Here(C.prog,x.m,x.k)} :
            IF Dbg!StopHere(x.c,h) THEN
              /\ x' = [x EXCEPT !.c = Dbg!Stopped(@)] /\ i' = i /\ j' = j+1
              /\ exp' = IF Ev("stop") # OK THEN Bad(Ev("stop") @@ [at |-> h])
                        ELSE LET d == Diff(C.prog,x.m,x.k,C.obs[j].fr) IN IF d.what = "" THEN OK ELSE Bad(d @@ [at |-> h])
            ELSE \E q \in {x} : Stays([q EXCEPT !.m = IF q.k < Len(Cur(C.prog,q.m).ph) THEN @ ELSE Step(C.prog,@), !.k = IF @ < Len(Cur(C.prog,q.m).ph) THEN @+1 ELSE 1])
\* leaves the statement the program stands at
Past(y) == [y EXCEPT !.m = IF y.k < Len(Cur(C.prog,y.m).ph) THEN @ ELSE Step(C.prog,@), !.k = IF @ < Len(Cur(C.prog,y.m).ph) THEN @+1 ELSE 1]
Cmd == /\ x.c.st # "run" /\ i <= Len(C.cmds)
       /\ LET q == C.cmds[i] IN
          IF q.a = "bp" THEN x' = [x EXCEPT !.c = Dbg!SetBp(@,q.f,SetFrom(q.l))] /\ i' = i+1 /\ j' = j /\ exp' = OK
          ELSE IF q.a = "disc" THEN x' = [x EXCEPT !.c = Dbg!Disconnect(@)] /\ i' = i+1 /\ j' = j+1 /\ exp' = Ev("gone")
          \* commands sent blindly: whatever they do on the way, the program ends once, or is left
          ELSE IF q.a = "race" THEN
            /\ x' = [x EXCEPT !.c = IF q.end = "disc" THEN Dbg!Disconnect(@) ELSE Dbg!Ended(@)] /\ i' = i+1 /\ j' = j+1
            /\ exp' = Ev(IF q.end = "disc" THEN "gone" ELSE IF x.c.st = "gone" THEN "gone" ELSE "exit")
          ELSE IF x.c.st # "stop" THEN x' = x /\ i' = i+1 /\ j' = j+1 /\ exp' = IF Ev("none") # OK THEN Ev("none") ELSE Empty0
          ELSE \E y \in {[Past(x) EXCEPT !.c = IF q.a = "in" THEN Dbg!StepIn(@) ELSE IF q.a = "next" THEN Dbg!StepOver(@,Here(C.prog,x.m,x.k).d) ELSE Dbg!Continue(@)]} :
               x' = y /\ i' = i+1 /\ j' = j /\ exp' = OK
Fin == /\ x.c.st # "run" /\ i = Len(C.cmds)+1 /\ i' = i+1 /\ UNCHANGED <<x,j>>
       /\ exp' = IF C.xs # 0 \/ C.xe # 0 THEN Bad([what |-> "further events", stops |-> C.xs, exits |-> C.xe]) ELSE OK
Next == exp = OK /\ (Run \/ Cmd \/ Fin) /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
View == <<ci,i,j,x.m.n,x.k,x.c.st,exp>>
Conforms == exp = OK
=============================================================================
