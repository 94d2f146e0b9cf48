---------------------------- MODULE LibResolve ------------------------------
(* Which workspace folder, processor group, library and file a program uses,  *)
(* and what is reported about the configuration.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(s,i) == SubSeq(s,i,i)
Low == "abcdefghijklmnopqrstuvwxyz"
Cap == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpC(c) == IF \E i \in 1..26 : Ch(Low,i) = c THEN LET i == CHOOSE k \in 1..26 : Ch(Low,k) = c IN Ch(Cap,i) ELSE c
RECURSIVE Up(_)
Up(s) == IF Len(s) = 0 THEN "" ELSE UpC(Ch(s,1)) \o Up(SubSeq(s,2,Len(s)))
Rest(s,i) == IF i > Len(s) THEN "" ELSE SubSeq(s,i,Len(s))
Has(s,c) == \E i \in 1..Len(s) : Ch(s,i) = c
Suffix(s,e) == Len(s) > Len(e) /\ SubSeq(s,Len(s)-Len(e)+1,Len(s)) = e
\* ---- wildcards: * any run of characters, ? one character, everything else itself
RECURSIVE Match(_,_)
Match(p,s) ==
  IF p = "" THEN s = ""
  ELSE IF Ch(p,1) = "*" THEN \E i \in 1..(Len(s)+1) : Match(Rest(p,2),Rest(s,i))
  ELSE s # "" /\ (Ch(p,1) = "?" \/ Ch(p,1) = Ch(s,1)) /\ Match(Rest(p,2),Rest(s,2))
IsWild(p) == Has(p,"*") \/ Has(p,"?")
\* ---- a configuration: [pgms, groups, exts, always, lim], pgms: <<[p, g]>>, groups: <<[n, libs, parm]>>, libs: <<[d, opt, exts]>>
None == [pgms |-> <<>>, groups |-> <<>>, exts |-> <<>>, always |-> <<>>, lim |-> -1]
GNames(c) == {c.groups[i].n : i \in DOMAIN c.groups}
First(s) == CHOOSE i \in s : \A j \in s : i <= j
\* exact entries first, then wildcards in order; entries of unknown groups do not count
GroupOf(c,f) ==
  LET ok == {i \in DOMAIN c.pgms : c.pgms[i].g \in GNames(c)}
      ex == {i \in ok : ~IsWild(c.pgms[i].p) /\ c.pgms[i].p = f}
      wi == {i \in ok : IsWild(c.pgms[i].p) /\ Match(c.pgms[i].p,f)}
      g == IF ex # {} THEN c.pgms[First(ex)].g ELSE IF wi # {} THEN c.pgms[First(wi)].g ELSE ""
  IN IF g = "" THEN [n |-> "", libs |-> <<>>, parm |-> ""] ELSE c.groups[First({i \in DOMAIN c.groups : c.groups[i].n = g})]
\* ---- extensions of a library
Dot(e) == IF e = "" \/ Ch(e,1) = "." THEN e ELSE "." \o e
Ran(s) == {s[i] : i \in DOMAIN s}
AfterStar(wc) == LET k == {i \in 1..(Len(wc)-1) : SubSeq(wc,i,i+1) = "*."} IN IF k = {} THEN "-" ELSE Rest(wc,(CHOOSE i \in k : \A j \in k : j <= i)+1)
Compat(c) == {AfterStar(x) : x \in Ran(c.always)} \ {"-"}
Old(c,l) == l.exts = <<>> /\ c.exts = <<>> /\ Compat(c) # {}
Exts(c,l) == IF l.exts # <<>> THEN {Dot(e) : e \in Ran(l.exts)} ELSE IF c.exts # <<>> THEN {Dot(e) : e \in Ran(c.exts)} ELSE IF Compat(c) # {} THEN Compat(c) \cup {""} ELSE {}
\* the name under which a file is known in a library, "" if not at all
Known(es,b) ==
  IF es = {} THEN Up(b)
  ELSE LET f == {e \in es : Suffix(b,e)} IN
       IF f = {} THEN "" ELSE LET e == CHOOSE x \in f : \A y \in f : Len(x) >= Len(y) IN Up(SubSeq(b,1,Len(b)-Len(e)))
\* disk: path -> [d, b, k]; dirs: existing directories
In(w,l) == {p \in DOMAIN w.disk : w.disk[p].d = l.d}
Cands(w,c,l,n) == {p \in In(w,l) : Known(Exts(c,l),w.disk[p].b) = n}
Find(w,c,ls,n) == LET h == {i \in DOMAIN ls : Cands(w,c,ls[i],n) # {}} IN IF h = {} THEN {} ELSE Cands(w,c,ls[First(h)],n)
\* ---- workspace folders
Under(f,p) == Len(p) > Len(f) /\ SubSeq(p,1,Len(f)) = f /\ Ch(p,Len(f)+1) = "/"
Folder(w,p) == LET s == {f \in DOMAIN w.ws : Under(f,p)} IN IF s = {} THEN "" ELSE CHOOSE f \in s : \A g \in s : Len(g) <= Len(f)
CfgOf(w,p) == LET f == Folder(w,p) IN IF f = "" THEN None ELSE w.ws[f]
RelOf(w,p) == LET f == Folder(w,p) IN IF f = "" THEN p ELSE Rest(p,Len(f)+2)
\* ---- analysis of the program p with calls ss = <<[k, n]>> followed by the tests of the system parameter for ps = <<"A","B"..>>
Dg(f,l,c) == [f |-> f, l |-> l, c |-> c]
\* allowed diagnostics of call i: one of a set
Call(w,c,g,p,s,i) ==
  LET x == Find(w,c,g.libs,s.n) IN
  IF x = {} THEN {Dg(p,i,IF s.k = "copy" THEN "E058" ELSE "E049")}
  ELSE {Dg(q,IF s.k = "copy" THEN 1 ELSE 3,"E049") : q \in x}
ParmLine(ss,k) == Len(ss) + 3*(k-1) + 2
Parms(g,p,ss,ps) == {Dg(p,ParmLine(ss,k),"E049") : k \in {j \in DOMAIN ps : g.parm = ps[j]}}
\* ... and by questions whether the names ns are operations (O'), reported if not
Asks(w,c,g,p,ss,ps,ns) == {Dg(p,Len(ss) + 3*Len(ps) + 3*(k-1) + 2,"E049") : k \in {j \in DOMAIN ns : Find(w,c,g.libs,ns[j]) = {}}}
\* library reports
\* a required library that is no directory is reported; an optional one whose path is a file may be
Bad(w,l,sure) == l.d \notin w.dirs /\ (~l.opt \/ (~sure /\ l.d \in w.files))
Sum(s,f(_)) == LET RECURSIVE S(_)
                   S(x) == IF x = {} THEN 0 ELSE LET e == CHOOSE y \in x : TRUE IN f(e) + S(x \ {e})
               IN S(s)
L2(w,ls,sure) == Cardinality({i \in DOMAIN ls : Bad(w,ls[i],sure)})
Stripped(c,l,b) == \E e \in Exts(c,l) : e # "" /\ Suffix(b,e)
L3(w,c,ls) == Cardinality({i \in DOMAIN ls : Old(c,ls[i]) /\ \E p \in In(w,ls[i]) : Stripped(c,ls[i],w.disk[p].b)})
Dups(w,c,l) == LET ns == {Known(Exts(c,l),w.disk[p].b) : p \in In(w,l)} \ {""} IN IF Exts(c,l) = {} THEN 0 ELSE Sum(ns,LAMBDA n : Cardinality(Cands(w,c,l,n)) - 1)
L4(w,c,ls) == Sum(DOMAIN ls,LAMBDA i : Dups(w,c,ls[i]))
LCount(w,c,ls,k,sure) == IF k = "L0002" THEN L2(w,ls,sure) ELSE IF k = "L0003" THEN L3(w,c,ls) ELSE L4(w,c,ls)
AllL(w,k) == Sum(DOMAIN w.ws,LAMBDA f : Sum(DOMAIN w.ws[f].groups,LAMBDA i : LCount(w,w.ws[f],w.ws[f].groups[i].libs,k,FALSE)))
CfgDiags(w) == {Dg(f \o "/.hlasmplugin/pgm_conf.json",1,"W0004") : f \in {g \in DOMAIN w.ws : \E i \in DOMAIN w.ws[g].pgms : w.ws[g].pgms[i].g \notin GNames(w.ws[g])}}
           \cup {Dg(f \o "/.hlasmplugin/proc_grps.json",1,"W0005") : f \in {g \in DOMAIN w.ws : \E i \in DOMAIN w.ws[g].groups : Len(w.ws[g].groups[i].parm) > 255}}
Limit(w,p) == LET l == CfgOf(w,p).lim IN IF l >= 0 THEN l ELSE w.lim
\* what may be shown after program p alone has been opened: o the set of diagnostics, n[k] the number of library reports of each kind
Legal(w,p,ss,ps,ns,o,n) ==
  LET c == CfgOf(w,p)
      g == GroupOf(c,RelOf(w,p))
      calls == [i \in DOMAIN ss |-> Call(w,c,g,p,ss[i],i)]
      parm == Parms(g,p,ss,ps) \cup Asks(w,c,g,p,ss,ps,ns)
      sup == g.n = "" /\ Len(ss) + Cardinality(parm) > Limit(w,p)
      ex == IF sup THEN CfgDiags(w) ELSE parm \cup CfgDiags(w)
      may == IF sup THEN ex ELSE ex \cup UNION {calls[i] : i \in DOMAIN ss}
      all == \E i \in DOMAIN ss : Find(w,c,g.libs,ss[i].n) = {}
  IN /\ ex \subseteq o /\ o \subseteq may
     /\ ~sup => \A i \in DOMAIN ss : Cardinality(calls[i] \cap o) = 1
     /\ \A k \in {"L0002","L0003","L0004"} : n[k] <= AllL(w,k) /\ (all => n[k] >= LCount(w,c,g.libs,k,TRUE))
\* ---- transitions: w = [ws, conf, disk, dirs, files, lim]; conf: configuration files on disk
AddFolder(w,f) == [w EXCEPT !.ws = (f :> IF f \in DOMAIN w.conf THEN w.conf[f] ELSE None) @@ @]
DelFolder(w,f) == [w EXCEPT !.ws = [g \in DOMAIN @ \ {f} |-> @[g]]]
SetConf(w,f,c) == [w EXCEPT !.conf = (f :> c) @@ @, !.ws = IF f \in DOMAIN @ THEN (f :> c) @@ @ ELSE @]
Put(w,p,r) == [w EXCEPT !.disk = (p :> r) @@ @, !.dirs = @ \cup {r.d}]
Del(w,p) == [w EXCEPT !.disk = [q \in DOMAIN @ \ {p} |-> @[q]]]
W0(disk,dirs,files,conf,lim) == [ws |-> <<>>, conf |-> conf, disk |-> disk, dirs |-> dirs, files |-> files, lim |-> lim]
=============================================================================
