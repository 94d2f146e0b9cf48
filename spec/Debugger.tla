------------------------------ MODULE Debugger ------------------------------
(* Control of a traced program.  The traced program is a sequence of         *)
(* statements about to be executed; here: [d: depth of the call stack,       *)
(* f: file, b,e: first and last line].  Controller:                          *)
(*   st    "run" | "stop" | "end" | "gone"                                   *)
(*   into  stop at the next statement, over: stop at depth <= over (0: no)   *)
(*   bps   file -> lines with breakpoints                                    *)
EXTENDS Naturals, Sequences, TLC
Ctl0(entry,bps) == [st |-> "run", into |-> entry, over |-> 0, bps |-> bps]
Lines0(c,f) == IF f \in DOMAIN c.bps THEN c.bps[f] ELSE {}
Hit(c,h) == \E l \in Lines0(c,h.f) : h.b <= l /\ l <= h.e
StopHere(c,h) == c.into \/ Hit(c,h) \/ (c.over > 0 /\ h.d <= c.over)
Stopped(c) == [c EXCEPT !.st = "stop", !.into = FALSE, !.over = 0]
Ended(c) == [c EXCEPT !.st = "end"]
\* commands
SetBp(c,f,L) == [c EXCEPT !.bps = (f :> L) @@ @]
StepIn(c) == IF c.st = "stop" THEN [c EXCEPT !.st = "run", !.into = TRUE] ELSE c
StepOver(c,d) == IF c.st = "stop" THEN [c EXCEPT !.st = "run", !.over = d] ELSE c
Continue(c) == IF c.st = "stop" THEN [c EXCEPT !.st = "run"] ELSE c
Disconnect(c) == [c EXCEPT !.st = "gone"]
=============================================================================
