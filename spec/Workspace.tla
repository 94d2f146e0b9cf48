----------------------------- MODULE Workspace ------------------------------
(* Programs, library members, editor buffers and the diagnostics of each.     *)
(* A program is analysed when it, or a file it used, is opened, edited,       *)
(* closed or changed on disk, or when the configuration changes; nothing      *)
(* but the contents at that moment decides what is reported.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* statement: [k |-> "ok" | "bad" | "call" | "copy", n |-> member name]
\* text: sequence of statements; a member whose name starts with MAC is the body of a macro definition
Lim == 10
IsMac(n) == Len(n) > 3 /\ SubSeq(n,1,3) = "MAC"
Dg(f,l,c) == [f |-> f, l |-> l, c |-> c]
Off(n) == IF IsMac(n) THEN 2 ELSE 0
Text(w,f) == IF f \in DOMAIN w.open THEN w.open[f] ELSE w.disk[f]
\* the libraries of a program, first match wins
Libs(w,p) == IF p \in DOMAIN w.map /\ w.map[p] \in DOMAIN w.grps THEN w.grps[w.map[p]] ELSE <<>>
HasGroup(w,p) == p \in DOMAIN w.map /\ w.map[p] \in DOMAIN w.grps
RECURSIVE Find(_,_,_)
Find(w,ls,n) == IF ls = <<>> THEN "" ELSE LET f == Head(ls) \o "/" \o n IN IF f \in DOMAIN w.disk THEN f ELSE Find(w,Tail(ls),n)
\* one analysis: d diagnostics of the program, deps files used, own definition-time diagnostics per member, defs macros defined
RECURSIVE Define(_,_,_,_,_,_), Exec(_,_,_,_,_,_,_)
\* definition of a macro: copy members are included now
Define(w,ls,f,ss,i,a) ==
  IF i > Len(ss) THEN a
  ELSE IF ss[i].k # "copy" THEN Define(w,ls,f,ss,i+1,a)
  ELSE LET g == Find(w,ls,ss[i].n) IN
       IF g = "" THEN Define(w,ls,f,ss,i+1,[a EXCEPT !.own[f] = @ \cup {Dg(f,i+2,"E058")}])
       ELSE Define(w,ls,f,ss,i+1,[a EXCEPT !.deps = @ \cup {g}, !.own = (g :> {}) @@ @])
\* execution of the statements of file f, which starts at line off+1; inm: within a macro
Exec(w,ls,f,off,ss,i,a) ==
  IF i > Len(ss) THEN a
  ELSE LET s == ss[i] IN
  IF s.k = "ok" THEN Exec(w,ls,f,off,ss,i+1,a)
  ELSE IF s.k = "bad" THEN Exec(w,ls,f,off,ss,i+1,[a EXCEPT !.d = @ \cup {Dg(f,i+off,"E049")}, !.n = @ + 1])
  ELSE IF s.k = "copy" THEN
     LET g == Find(w,ls,s.n) IN
     IF g = "" THEN Exec(w,ls,f,off,ss,i+1,IF off = 2 THEN a ELSE [a EXCEPT !.d = @ \cup {Dg(f,i+off,"E058")}, !.n = @ + 1])
     ELSE Exec(w,ls,f,off,ss,i+1,Exec(w,ls,g,0,Text(w,g),1,[a EXCEPT !.deps = @ \cup {g}, !.own = (g :> {}) @@ @]))
  ELSE LET g == IF s.n \in DOMAIN a.defs THEN a.defs[s.n] ELSE Find(w,ls,s.n) IN
     IF g = "" THEN Exec(w,ls,f,off,ss,i+1,[a EXCEPT !.d = @ \cup {Dg(f,i+off,"E049")}, !.n = @ + 1])
     ELSE LET b == IF s.n \in DOMAIN a.defs THEN a
                   ELSE Define(w,ls,g,Text(w,g),1,[a EXCEPT !.defs = (s.n :> g) @@ @, !.deps = @ \cup {g}, !.own = (g :> {}) @@ @])
          IN Exec(w,ls,f,off,ss,i+1,Exec(w,ls,g,2,Text(w,g),1,b))
A0 == [d |-> {}, n |-> 0, deps |-> {}, own |-> <<>>, defs |-> <<>>]
\* the file as a program of its own (a macro member opened this way is only defined)
Mem(f) == IF \E i \in 1..Len(f) : SubSeq(f,i,i) = "/" THEN SubSeq(f,6,Len(f)) ELSE f
Analyse(w,p) ==
  LET ls == Libs(w,p)
      a == IF IsMac(Mem(p)) THEN LET x == Define(w,ls,p,Text(w,p),1,[A0 EXCEPT !.own = (p :> {})]) IN [x EXCEPT !.d = x.own[p], !.n = Cardinality(x.own[p]), !.own = [g \in DOMAIN @ \ {p} |-> @[g]]]
           ELSE Exec(w,ls,p,0,Text(w,p),1,A0)
  IN IF ~HasGroup(w,p) /\ a.n > Lim THEN [a EXCEPT !.d = {}] ELSE a
-----------------------------------------------------------------------------
\* w.an[p] = [d, deps] analysed programs; w.own[f] members; w.unk members whose diagnostics are not determined
Deps(w,p) == w.an[p].deps
Dependants(w,f) == {p \in DOMAIN w.an : f \in Deps(w,p)}
Drop(fn,s) == [x \in DOMAIN fn \ s |-> fn[x]]
Put(fn,x,v) == (x :> v) @@ fn
\* analysis of p with the contents of this moment; members it loads lose what they showed before
Update(w,p) ==
  LET a == Analyse(w,p)
      old == IF p \in DOMAIN w.an THEN w.an[p].deps ELSE {}
      l == DOMAIN a.own
  IN [w EXCEPT !.an = Put(Drop(@,l),p,[d |-> a.d, deps |-> a.deps, gone |-> old \ a.deps]),
               !.own = a.own @@ Drop(@,{p}),
               !.unk = @ \ (l \cup {p}),
               !.dpt = IF a.deps = {} THEN @ ELSE @ \cup {p}]
RECURSIVE UpdateAll(_,_), CloseAll(_,_)
UpdateAll(w,ps) == IF ps = {} THEN w ELSE LET p == CHOOSE x \in ps : TRUE IN UpdateAll(Update(w,p),ps \ {p})
\* members that p does not use any more are forgotten unless another program uses them or they are open
Release(w,p,ds) ==
  LET used == UNION {Deps(w,q) : q \in DOMAIN w.an \ {p}}
      free == {d \in ds : d \notin used}
      shut == {d \in free : d \notin DOMAIN w.open}
  IN [w EXCEPT !.own = Drop(@,shut), !.unk = (@ \cup (free \ shut)) \ shut]
CloseAll(w,ps) == IF ps = {} THEN w ELSE LET p == CHOOSE x \in ps : TRUE IN CloseAll(Release(w,p,w.an[p].gone \ UNION {Deps(w,q) : q \in DOMAIN w.an}),ps \ {p})
Process(w,ps) == CloseAll(UpdateAll(w,ps),ps)
Parse(w,f) == LET ps == Dependants(w,f) IN Process(w,IF ps # {} THEN ps ELSE IF f \in DOMAIN w.open THEN {f} ELSE {})
\* ---- the notifications
Open(w,f,t) == Parse([w EXCEPT !.open = Put(@,f,t)],f)
Change(w,f,t) == IF f \in DOMAIN w.open THEN Open(w,f,t) ELSE w
Close(w,f) ==
  LET v == [w EXCEPT !.open = Drop(@,{f})] IN
  IF Dependants(w,f) # {} THEN Parse(v,f)
  ELSE LET u == IF f \in DOMAIN w.an THEN Release(v,f,Deps(w,f)) ELSE v
       IN [u EXCEPT !.an = Drop(@,{f}), !.own = Drop(@,{f}), !.unk = @ \ {f}, !.dpt = @ \ {f}]
Disk(w,f,t) == Parse([w EXCEPT !.disk = Put(@,f,t)],f)
Delete(w,f) == Parse([w EXCEPT !.disk = Drop(@,{f})],f)
\* a configuration that cannot be used leaves the previous one in effect
Config(w,c) ==
  IF c.bad # "" THEN [w EXCEPT !.cfgd = {Dg(c.bad,1,c.code)}]
  ELSE LET v == [w EXCEPT !.map = c.map, !.grps = c.grps,
                          !.cfgd = IF \E p \in DOMAIN c.map : c.map[p] \notin DOMAIN c.grps THEN {Dg(".hlasmplugin/pgm_conf.json",1,"W0004")} ELSE {}]
       IN Process(v,v.dpt)
\* what the client shows
View(w) == UNION {w.an[p].d : p \in DOMAIN w.an} \cup UNION {w.own[f] : f \in DOMAIN w.own} \cup w.cfgd
W0(disk,map,grps) == [disk |-> disk, open |-> <<>>, map |-> map, grps |-> grps, an |-> <<>>, own |-> <<>>, unk |-> {}, dpt |-> {}, cfgd |-> {}]
=============================================================================
