---------------------------- MODULE MC_SymDeps ----------------------------
(* All programs with three mutually defined EQU symbols around three storage *)
(* definitions: statements are resolved one at a time in every order.        *)
EXTENDS SymDeps
N(v) == [k |-> "n", v |-> v]
S(x) == [k |-> "s", s |-> x]
A(x) == [k |-> "L", s |-> x]
Op(o,a,b) == [k |-> o, a |-> a, b |-> b]
Forms == {N(2), S("A"), S("B"), Op("+",S("C"),N(1)), Op("+",S("A"),S("B")), A("Q"), Op("-",S("R"),S("P")), Op("-",S("R"),S("Q")), S("U"), Op("*",Op("-",S("Q"),S("P")),N(2))}
Equ(l,e) == [op |-> "EQU", lab |-> l, e |-> e, len |-> -1]
Ds(l,e,f) == [op |-> "DS", lab |-> l, e |-> e, form |-> f]
Sect(l) == [op |-> "SECT", lab |-> l]
Program(a,b,c) == <<Sect("S"),Ds("P",S("A"),"dup"),Ds("Q",S("B"),"len"),Equ("C",c),Ds("R",N(1),"dup"),Equ("A",a),Equ("B",b)>>
VARIABLES prog, mode, env
vars == <<prog,mode,env>>
Lay == Layout(prog)
Init == /\ \E a, b, c \in Forms : prog = Program(a,b,c)
        /\ mode \in {Lenient,StrictU,StrictZ}
        /\ env = Env0(prog)
Next == /\ \E k \in DOMAIN prog : \E e \in {ResolveOne(prog,Lay,mode,env,k)} : e # env /\ env' = e
        /\ UNCHANGED <<prog,mode>>
Spec == Init /\ [][Next]_vars
Stable == \A k \in DOMAIN prog : ResolveOne(prog,Lay,mode,env,k) = env
Final == Fix(prog,Lay,mode,Env0(prog))
(* the values in use are those of the final environment, whatever the order *)
Same(k) == Value(prog,Lay,env,k) = Value(prog,Lay,Final,k)
Confluent == Stable => \A k \in DOMAIN prog : Same(k) /\ Pending(prog,env,k) = Pending(prog,Final,k)
(* once fully known, a value never changes *)
Settled == \A k \in DOMAIN prog : Known(prog,Lay,env,k) => Same(k)
(* whatever is left over is explained by a cycle, an undefined symbol or an impossible size *)
Explained == (Stable /\ mode = Lenient) => ((\E k \in DOMAIN prog : Pending(prog,env,k)) <=> OnCycle(prog,Lay) # {})
=============================================================================
