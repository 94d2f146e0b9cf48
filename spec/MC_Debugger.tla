---------------------------- MODULE MC_Debugger -----------------------------
(* The analysing thread and the debug adapter's thread share a lock, a       *)
(* condition variable and a flag.  Every interleaving of a small program     *)
(* with every sequence of at most MaxCmd commands, sent at any time.         *)
EXTENDS Debugger, FiniteSets
CONSTANTS MaxCmd, LockedContinue
P == <<[d |-> 1, f |-> "p", b |-> 0, e |-> 0],[d |-> 2, f |-> "m", b |-> 5, e |-> 6],[d |-> 3, f |-> "m", b |-> 8, e |-> 8],[d |-> 2, f |-> "m", b |-> 7, e |-> 7],[d |-> 1, f |-> "p", b |-> 1, e |-> 1]>>
BpSets == {<<>>, ("m" :> {6}), ("p" :> {1}), ("m" :> {8})}
VARIABLES pos, pa, lock, cont, into, over, depth, gone, cancel, bps, stops, exits, cmds, pc, woken, shown, late, ctl
vars == <<pos,pa,lock,cont,into,over,depth,gone,cancel,bps,stops,exits,cmds,pc,woken,shown,late,ctl>>
\* pa: analysing thread: run, stopping, locked, check, sleep, wake, done;   pc: adapter: idle, or a command that wants the lock
\* ctl: the controller of Debugger as long as commands are only sent at a stop; late: some command was not
Init == /\ pos = 1 /\ pa = "run" /\ lock = "" /\ cont = FALSE /\ over = 0 /\ depth = 0 /\ gone = FALSE /\ cancel = FALSE
        /\ into \in BOOLEAN /\ bps \in BpSets /\ stops = <<>> /\ exits = 0 /\ cmds = 0 /\ pc = "idle" /\ woken = FALSE /\ shown = FALSE /\ late = FALSE
        /\ ctl = Ctl0(into,bps)
C == [st |-> "run", into |-> into, over |-> over, bps |-> bps]
RunStmt == /\ pa = "run"
           /\ IF cancel \/ pos > Len(P) THEN pa' = "done" /\ exits' = (IF gone THEN exits ELSE exits+1) /\ ctl' = (IF gone THEN ctl ELSE Ended(ctl)) /\ UNCHANGED pos
              ELSE /\ UNCHANGED <<exits,ctl>> /\ IF ~gone /\ StopHere(C,P[pos]) THEN pa' = "stopping" /\ UNCHANGED pos ELSE pos' = pos+1 /\ UNCHANGED pa
           /\ UNCHANGED <<lock,cont,into,over,depth,gone,cancel,bps,stops,cmds,pc,woken,shown,late>>
TakeLock == /\ pa = "stopping" /\ lock = "" 
            /\ IF gone THEN pa' = "run" /\ pos' = pos+1 /\ UNCHANGED <<lock,into,over,depth,cont,stops,shown,ctl>>
               ELSE /\ pa' = "check" /\ lock' = "a" /\ into' = FALSE /\ over' = 0 /\ depth' = P[pos].d /\ cont' = FALSE /\ stops' = Append(stops,pos) /\ shown' = TRUE /\ ctl' = Stopped(ctl) /\ UNCHANGED pos
            /\ UNCHANGED <<gone,cancel,bps,exits,cmds,pc,woken,late>>
Check == /\ pa = "check" /\ IF cont THEN pa' = "run" /\ pos' = pos+1 /\ lock' = "" ELSE pa' = "presleep" /\ UNCHANGED <<pos,lock>>
         /\ UNCHANGED <<cont,into,over,depth,gone,cancel,bps,stops,exits,cmds,pc,woken,shown,late,ctl>>
\* between the test and the wait the lock is still held
Sleep == /\ pa = "presleep" /\ pa' = "sleep" /\ lock' = "" /\ woken' = FALSE /\ UNCHANGED <<pos,cont,into,over,depth,gone,cancel,bps,stops,exits,cmds,pc,shown,late,ctl>>
Wake == /\ pa = "sleep" /\ woken /\ lock = "" /\ lock' = "a" /\ pa' = "check" /\ woken' = FALSE /\ UNCHANGED <<pos,cont,into,over,depth,gone,cancel,bps,stops,exits,cmds,pc,shown,late,ctl>>
\* the adapter
Send(k) == /\ pc = "idle" /\ cmds < MaxCmd /\ cmds' = cmds+1 /\ pc' = k /\ late' = (late \/ ~shown) /\ shown' = FALSE /\ UNCHANGED <<pos,pa,lock,cont,into,over,depth,gone,cancel,bps,stops,exits,woken,ctl>>
Do == /\ pc # "idle" /\ (lock = "" \/ (pc = "cont" /\ ~LockedContinue))
      /\ pc' = "idle" /\ cont' = TRUE /\ woken' = TRUE
      /\ into' = (IF pc = "in" THEN TRUE ELSE IF pc = "cont" THEN FALSE ELSE into)
      /\ over' = (IF pc = "next" THEN depth ELSE IF pc = "cont" THEN 0 ELSE over)
      /\ gone' = (pc = "disc" \/ gone) /\ cancel' = (pc = "disc" \/ cancel)
      /\ ctl' = (IF pc = "in" THEN StepIn(ctl) ELSE IF pc = "next" THEN StepOver(ctl,depth) ELSE IF pc = "cont" THEN Continue(ctl) ELSE Disconnect(ctl))
      /\ UNCHANGED <<pos,pa,lock,depth,bps,stops,exits,cmds,shown,late>>
\* a user who is shown a stop eventually continues
Nudge == /\ pc = "idle" /\ pa = "sleep" /\ shown /\ pc' = "cont" /\ shown' = FALSE /\ UNCHANGED <<pos,pa,lock,cont,into,over,depth,gone,cancel,bps,stops,exits,cmds,woken,late,ctl>>
Analyse == RunStmt \/ TakeLock \/ Check \/ Sleep \/ Wake
Next == Analyse \/ (\E k \in {"in","next","cont","disc"} : ~gone /\ Send(k)) \/ Do \/ Nudge
Spec == Init /\ [][Next]_vars /\ WF_vars(Analyse) /\ WF_vars(Do) /\ WF_vars(Nudge)
\* properties
OneExit == exits <= 1
NoStopAfterLeaving == [][gone => stops' = stops]_vars
NoLostCommand == pa = "sleep" /\ cont /\ pc = "idle" => woken
\* while commands are only sent at stops the threads implement the controller
Implements == ~late /\ pc = "idle" /\ ~gone => /\ (ctl.st = "stop" <=> pa \in {"check","presleep","sleep"} /\ ~cont)
                                               /\ (ctl.st = "end" <=> pa = "done")
                                               /\ (ctl.st = "run" => ctl.into = into /\ ctl.over = over)
StopsRight == ~late => \A k \in 1..Len(stops) : stops[k] \in 1..Len(P) /\ (k > 1 => stops[k-1] < stops[k])
Ends == <>(pa = "done")
=============================================================================
