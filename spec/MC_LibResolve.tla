--------------------------- MODULE MC_LibResolve ----------------------------
(* Sanity of the resolution rules over every small configuration: results do  *)
(* not depend on entries that cannot apply, and later libraries and patterns  *)
(* never override earlier ones.                                               *)
EXTENDS LibResolve
CONSTANTS Alpha, PLen, FLen
RECURSIVE Words(_,_)
Words(a,n) == IF n = 0 THEN {""} ELSE LET w == Words(a,n-1) IN w \cup {x \o c : x \in w, c \in a}
Pats == Words(Alpha \cup {"*","?"},PLen) \ {""}
Names == Words(Alpha,FLen) \ {""}
Conf(ps) == [pgms |-> ps, groups |-> <<[n |-> "G", libs |-> <<>>, parm |-> "G"],[n |-> "H", libs |-> <<>>, parm |-> "H"]>>, exts |-> <<>>, always |-> <<>>, lim |-> -1]
VARIABLES p, q, f
vars == <<p,q,f>>
Init == p \in Pats /\ q \in Pats /\ f \in Names
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
G(ps) == GroupOf(Conf(ps),f).n
E(x,g) == [p |-> x, g |-> g]
Hit(x) == IF IsWild(x) THEN Match(x,f) ELSE x = f
Order == LET g == G(<<E(p,"G"),E(q,"H")>>) IN
         /\ (~IsWild(q) /\ q = f /\ IsWild(p)) => g = "H"
         /\ (Hit(p) /\ ~(~IsWild(q) /\ q = f /\ IsWild(p))) => g = "G"
         /\ (~Hit(p) /\ Hit(q)) => g = "H"
         /\ (~Hit(p) /\ ~Hit(q)) => g = ""
Unknown == G(<<E(p,"X"),E(q,"H")>>) = G(<<E(q,"H")>>)
\* wildcard laws
Laws == /\ Match("*",f) /\ Match(f,f)
        /\ Match(p,f) => Match(p \o "*",f) /\ Match("*" \o p,f)
        /\ Match(p,f) <=> \E x \in Names \cup {""} : x = f /\ Match(p,x)
        /\ (Match(p,f) /\ ~Has(p,"*")) => Len(p) = Len(f)
=============================================================================
