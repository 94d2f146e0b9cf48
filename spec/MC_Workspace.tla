---------------------------- MODULE MC_Workspace ----------------------------
(* Every history of editor, disk and configuration events over two programs  *)
(* and three member files: what is shown for an analysed program is what an  *)
(* analysis of the present contents would show, unless a member it could not *)
(* find (or found in a later library) has appeared since, and nothing is     *)
(* shown for files nobody looks at.                                          *)
EXTENDS Workspace
CONSTANT Depth
VARIABLES w, n, app
vars == <<w,n,app>>
St(k,m) == [k |-> k, n |-> m]
MA == "lib1/MACA"
MB == "lib2/MACB"
MC == "lib1/MACB"
Texts(f) == CASE f = "P" -> {<<St("call","MACA")>>,<<St("bad",""),St("call","MACB")>>}
              [] f = "Q" -> {<<St("call","MACB")>>,<<St("copy","CPYB")>>}
              [] f = MA -> {<<St("bad",""),St("call","MACB")>>,<<St("call","MACB")>>}
              [] OTHER -> {<<St("bad","")>>,<<St("copy","CPYB")>>}
Members == {MA,MB,MC}
Grps == {[G1 |-> <<"lib1","lib2">>,G2 |-> <<"lib2">>], [G1 |-> <<"lib2","lib1">>]}
Cfgs == {[bad |-> b, code |-> "W0002", map |-> m, grps |-> g] : b \in {"","x"}, m \in {[P |-> "G1",Q |-> "G2"],[P |-> "G2",Q |-> "G1"]}, g \in Grps}
Init == /\ n = 0 /\ app = {}
        /\ w = W0((MA :> <<St("bad",""),St("call","MACB")>>) @@ (MB :> <<St("bad","")>>), [P |-> "G1",Q |-> "G2"], [G1 |-> <<"lib1","lib2">>,G2 |-> <<"lib2">>])
\* app: files that appeared or disappeared without an analysis of everything since
Do(v,a) == w' = v /\ n' = n+1 /\ app' = a
Next == n < Depth /\
  \/ \E f \in {"P","Q"} \cup Members : \E t \in Texts(f) : (f \in {"P","Q"} \/ f \in DOMAIN w.disk) /\ Do(Open(w,f,t),app)
  \/ \E f \in DOMAIN w.open : Do(Close(w,f),app)
  \/ \E f \in Members : \E t \in Texts(f) : Do(Disk(w,f,t),IF f \in DOMAIN w.disk THEN app ELSE app \cup {f})
  \/ \E f \in Members \cap DOMAIN w.disk : f \notin DOMAIN w.open /\ Do(Delete(w,f),app)
  \/ \E c \in Cfgs : Do(Config(w,c),app)
View2 == <<w,app>>
Spec == Init /\ [][Next]_vars
\* an analysis is current, unless the program used no library files when the configuration changed or a file appeared meanwhile
Current == \A p \in DOMAIN w.an : LET a == Analyse(w,p) IN (a.deps = Deps(w,p) /\ p \in w.dpt) => (a.d = w.an[p].d \/ \E f \in app : f \in DOMAIN w.disk)
Used == DOMAIN w.open \cup UNION {Deps(w,q) : q \in DOMAIN w.an}
NothingStale == /\ DOMAIN w.an \subseteq DOMAIN w.open
                /\ DOMAIN w.own \subseteq Used
                /\ \A d \in View(w) : d.f \in Used \cup {"x",".hlasmplugin/pgm_conf.json"}
\* reopening everything in any order gives the same view as the one that is shown
RECURSIVE Reopen(_,_)
Reopen(v,fs) == IF fs = {} THEN v ELSE LET f == CHOOSE x \in fs : TRUE IN Reopen(Open(v,f,w.open[f]),fs \ {f})
Fresh == Reopen([W0(w.disk,w.map,w.grps) EXCEPT !.cfgd = w.cfgd],DOMAIN w.open \cap {"P","Q"})
HistoryFree == (app = {} /\ w.unk = {} /\ DOMAIN w.open \subseteq {"P","Q"} /\ DOMAIN w.an \subseteq w.dpt /\ \A p \in DOMAIN w.an : Analyse(w,p).deps = Deps(w,p)) => View(w) = View(Fresh)
=============================================================================
