------------------------------ MODULE Position ------------------------------
(* Where the machine of MacroLang is: the statement about to be executed and *)
(* the chain of calls and COPY statements that led to it. Statements carry   *)
(* their file f, their physical statements ph (first, last line) and nest,   *)
(* the COPY statements around them in a macro definition.                    *)
EXTENDS MacroLang
\* ---- the statement about to be executed -----------------------------------
Fr(prog,m) == IF InMac(m) THEN m.fr ELSE Norm0(prog,m.fr)
AtStmt(prog,m) == ~m.done /\ IF InMac(m) THEN Top(m).i <= Len(Top(m).body) ELSE ~AtEnd(prog,Fr(prog,m))
Cur(prog,m) == IF InMac(m) THEN Top(m).body[Top(m).i] ELSE StmtAt(prog,Fr(prog,m))
\* call stack, outermost first: [n: kind, f, l, s: scope]
Loc(s,k) == [f |-> s.f, l |-> s.ph[k][1]]
OpenFrames(prog,m,k) == LET fr == Fr(prog,m) IN
  [q \in DOMAIN fr |-> LET L == Lines(prog,fr[q].f)
                           now == ~InMac(m) /\ q = Len(fr)
                           s == IF now THEN L[fr[q].i] ELSE L[fr[q].i - 1] IN
     [n |-> IF q = 1 THEN "OPENCODE" ELSE "COPY", f |-> s.f, l |-> s.ph[IF now THEN k ELSE 1][1], s |-> 1]]
MacFrames(m,q,k) == LET t == m.sc[q] now == q = Len(m.sc) s == t.body[IF now THEN t.i ELSE t.i - 1]
                        p == s.nest \o <<Loc(s,IF now THEN k ELSE 1)>> IN
  [r \in DOMAIN p |-> [n |-> IF r = 1 THEN "MACRO" ELSE "COPY", f |-> p[r].f, l |-> p[r].l, s |-> q]]
RECURSIVE AllMac(_,_,_)
AllMac(m,q,k) == IF q > Len(m.sc) THEN <<>> ELSE MacFrames(m,q,k) \o AllMac(m,q+1,k)
Frames(prog,m,k) == OpenFrames(prog,m,k) \o AllMac(m,2,k)
=============================================================================
