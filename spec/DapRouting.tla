----------------------------- MODULE DapRouting -----------------------------
(* Client messages are routed to the language server or to the debug session *)
(* they name; a session lives from its registration to its disconnect.       *)
EXTENDS Integers, Sequences, FiniteSets
\* session: st "none" | "live" | "over" ; init: initialize was handled ; out: what it writes
NoSess == [st |-> "none", init |-> FALSE, out |-> <<>>]
Resp(cmd,q,n) == [t |-> "response", cmd |-> cmd, rs |-> q, n |-> n]
Event(e) == [t |-> "event", cmd |-> e, rs |-> 0, n |-> 0]
Always == {"threads","configurationDone","setExceptionBreakpoints"}
Handle(x,m) ==
  IF m.cmd = "initialize" THEN [x EXCEPT !.init = TRUE, !.out = @ \o <<Resp(m.cmd,m.q,0),Event("initialized")>>]
  ELSE IF m.cmd \in Always THEN [x EXCEPT !.out = Append(@,Resp(m.cmd,m.q,0))]
  ELSE IF m.cmd = "setBreakpoints" /\ x.init THEN [x EXCEPT !.out = Append(@,Resp(m.cmd,m.q,m.n))]
  ELSE IF m.cmd = "disconnect" THEN [x EXCEPT !.st = "over", !.out = Append(@,Resp(m.cmd,m.q,0))]
  ELSE x
Register(x) == IF x.st = "none" THEN [NoSess EXCEPT !.st = "live"] ELSE x
Deliver(x,m) == IF x.st = "live" THEN Handle(x,m) ELSE x
=============================================================================
