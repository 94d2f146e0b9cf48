--------------------------- MODULE Trace_DiagLoc ----------------------------
(* Recorded runs of programs with errors: every diagnostic is reported at    *)
(* the statement that caused it, with the calls and COPY statements that led *)
(* there, innermost first; and every statement in error has one.             *)
EXTENDS Position, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES ci, m, acc, exp
vars == <<ci,m,acc,exp>>
MaxSteps == 20000
OK == [ok |-> TRUE]
SetFrom(s) == {s[q] : q \in DOMAIN s}
Rev(s) == [q \in DOMAIN s |-> s[Len(s)+1-q]]
P(x) == [f |-> x.f, l |-> x.l]
\* the chain of positions at physical statement k, innermost first
Chain(prog,x,k) == LET F == Frames(prog,x,k) IN [q \in DOMAIN F |-> P(F[Len(F)+1-q])]
Seen(d) == <<[f |-> d.f, l |-> d.l]>> \o [q \in DOMAIN d.r |-> P(d.r[q])]
\* codes whose statement is not the one being executed: found in definitions or in open code passed over
Elsewhere == {"E044","E045","E058","E059","E060"}
At(s,p) == s.f = p.f /\ \E k \in DOMAIN s.ph : p.l \in s.ph[k][1]..s.ph[k][2]
LinesOf(prog,f) == IF f = "OPEN" THEN prog.open ELSE prog.libs[f]
IsAt(prog,p,Q(_)) == \E q \in DOMAIN LinesOf(prog,p.f) : At(LinesOf(prog,p.f)[q],p) /\ Q(LinesOf(prog,p.f)[q])
FileOf(prog,f) == f = "OPEN" \/ f \in DOMAIN prog.libs
Labelled(s) == "seq" \in DOMAIN s /\ s.seq # ""
Copying(s) == s.op = "copy"
\* such a diagnostic still points at a statement that can be the cause; a label of open code is reached by COPY only
Plausible(prog,c,S) == 
  CASE c = "E044" -> FileOf(prog,S[1].f) /\ IsAt(prog,S[1],Labelled)
    [] c = "E058" -> FileOf(prog,S[1].f) /\ IsAt(prog,S[1],Copying)
    [] c = "E045" -> /\ \A q \in DOMAIN S : FileOf(prog,S[q].f)
                     /\ IsAt(prog,S[1],Labelled) /\ S[Len(S)].f = "OPEN"
                     /\ \A q \in 2..Len(S) : IsAt(prog,S[q],LAMBDA s : s.op = "copy" /\ s.m = S[q-1].f)
    [] OTHER -> TRUE
\* machine and assembler instructions in error (their codes are the matter of C17 and C18), checked at once or when their symbols are known
OrdCodes == {"M120","M135","M113","D008","D010","D016","D017","D018","E010"}
BadOrd(s) == s.op = "ord" /\ "bad" \in DOMAIN s
Entries(prog,x,D1) == LET D0 == D1 \cup (IF AtStmt(prog,x) /\ BadOrd(Cur(prog,x)) THEN {"ORD"} ELSE {}) IN
  IF D0 = {} THEN {}
  ELSE LET s == Cur(prog,x) IN {IF c \in Elsewhere THEN [c |-> c, w |-> TRUE, at |-> <<>>, e |-> 0] ELSE [c |-> c, w |-> FALSE, at |-> Chain(prog,x,Len(s.ph)), e |-> s.ph[Len(s.ph)][2]] : c \in D0}
\* a diagnostic points into the (possibly continued) statement
Here(e,d) == LET S == Seen(d) IN e.at /= <<>> /\ S[1].f = e.at[1].f /\ S[1].l \in e.at[1].l .. e.e /\ Tail(S) = Tail(e.at)
Same(prog,e,d) == IF e.w THEN d.c = e.c /\ Plausible(prog,d.c,Seen(d)) ELSE Here(e,d) /\ ((e.c = "ORD" /\ d.c \in OrdCodes) \/ d.c = e.c \/ "CE004" \in {d.c,e.c})
Judge(c,A) ==
  LET R == SetFrom(c.diags)
      extra == {d \in R : ~\E e \in A : Same(c.prog,e,d)}
      missing == {e \in A : ~e.w /\ ~\E d \in R : Same(c.prog,e,d)}
  IN IF c.cut \/ (extra = {} /\ missing = {}) THEN OK ELSE [ok |-> FALSE, extra |-> {<<d.c,Seen(d)>> : d \in extra}, missing |-> {<<e.c,e.at>> : e \in missing}]
Init == ci \in 1..Len(Cases) /\ m = Mach0 /\ acc = {} /\ exp = OK
Next == /\ ~m.done /\ exp = OK /\ m.n >= 0 /\ m.n < MaxSteps
        /\ \E m1 \in {[m EXCEPT !.d = {}]} : \E m2 \in {Step(Cases[ci].prog,m1)} : \E a2 \in {acc \cup Entries(Cases[ci].prog,m1,m2.d)} :
             /\ m' = m2 /\ acc' = a2
             /\ exp' = IF m2.done THEN Judge(Cases[ci],a2) ELSE OK
        /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
View == <<ci,m.n,exp>>
Conforms == exp = OK
Modelled == m.n >= 0
=============================================================================
