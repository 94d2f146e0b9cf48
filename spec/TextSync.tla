------------------------------ MODULE TextSync ------------------------------
(* C01. The LSP text model: documents are sequences of code points, positions are (line, UTF-16 column), *)
(* lines end with LF, CR or CRLF.  Actions are the client's notifications.                              *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

LF == 10
CR == 13
Width(c) == IF c > 65535 THEN 2 ELSE 1          \* UTF-16 code units

\* Start offsets (0-based) of all lines of text t.
RECURSIVE Starts(_, _, _)
Starts(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE IF t[i] = LF \/ (t[i] = CR /\ ~(i < Len(t) /\ t[i+1] = LF))
       THEN Starts(t, i + 1, Append(acc, i))
       ELSE Starts(t, i + 1, acc)
LineStarts(t) == Starts(t, 1, <<0>>)

IsEol(c) == c = LF \/ c = CR

\* Offset reached from 0-based offset o after u UTF-16 units, never crossing the end of the line.
RECURSIVE Walk(_, _, _)
Walk(t, o, u) == IF u = 0 \/ o >= Len(t) \/ IsEol(t[o+1]) THEN o
                 ELSE IF Width(t[o+1]) > u THEN o + 1
                 ELSE Walk(t, o + 1, u - Width(t[o+1]))
Offset(t, line, col) == LET ls == LineStarts(t) IN
                        IF line >= Len(ls) THEN Len(t) ELSE Walk(t, ls[line+1], col)

Replace(t, e) == IF e.w THEN e.t
                 ELSE LET b == Offset(t, e.sl, e.sc)
                          f == Offset(t, e.el, e.ec)
                      IN SubSeq(t, 1, b) \o e.t \o SubSeq(t, f + 1, Len(t))

RECURSIVE ApplyAll(_, _)
ApplyAll(t, es) == IF es = <<>> THEN t ELSE ApplyAll(Replace(t, Head(es)), Tail(es))

Closed == [open |-> FALSE, text |-> <<>>]
Open(docs, d, t)    == [docs EXCEPT ![d] = [open |-> TRUE, text |-> t]]
Change(docs, d, es) == IF docs[d].open THEN [docs EXCEPT ![d].text = ApplyAll(@, es)] ELSE docs
Close(docs, d)      == [docs EXCEPT ![d] = Closed]

Step(docs, s) == CASE s.a = "open"   -> Open(docs, s.d, s.t)
                   [] s.a = "change" -> Change(docs, s.d, s.e)
                   [] s.a = "close"  -> Close(docs, s.d)
                   [] OTHER          -> docs      \* analyses hold references to snapshots: no effect on the text
=============================================================================
