---------------------------- MODULE LspLifecycle ----------------------------
(* The session of one language client: every supported request is answered   *)
(* exactly once and in order, nothing a client sends stops the session before *)
(* the exit notification, and the result is success iff shutdown came first.  *)
EXTENDS Integers, Sequences
\* message: k "req" supported request | "note" notification | "odd" malformed or unsupported message
\*          | "shutdown" | "exit" ;  id  the request id as JSON text, "" for none
S0 == [shut |-> FALSE, exit |-> FALSE, resp |-> <<>>]
Answer(s,m) == [s EXCEPT !.resp = Append(@,m.id)]
Handle(s,m) ==
  IF s.exit THEN s
  ELSE IF m.k = "req" THEN Answer(s,m)
  ELSE IF m.k = "shutdown" THEN [Answer(s,m) EXCEPT !.shut = TRUE]
  ELSE IF m.k = "exit" THEN [s EXCEPT !.exit = TRUE]
  ELSE s
Result(s) == IF s.exit /\ s.shut THEN 0 ELSE 1
=============================================================================
