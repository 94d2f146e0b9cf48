---------------------------- MODULE MC_TextSync ----------------------------
(* Exhaustive check of the text model over tiny documents: positions denote offsets consistently, *)
(* an edit changes nothing outside its range, and line structure is a function of the text alone. *)
EXTENDS TextSync, TLC
CONSTANTS Alphabet, MaxLen, MaxIns, Depth
VARIABLES text, last, n
vars == <<text, last, n>>
Texts(k) == UNION {[1..i -> Alphabet] : i \in 0..k}
NoEdit == [w |-> TRUE, t |-> <<>>]
LineLen(t, l) == LET RECURSIVE U(_, _)
                     U(o, a) == IF o >= Len(t) \/ IsEol(t[o+1]) THEN a ELSE U(o + 1, a + Width(t[o+1]))
                 IN U(LineStarts(t)[l+1], 0)
Positions(t) == {<<l, c>> : l \in 0..(Len(LineStarts(t)) - 1), c \in 0..(2 * MaxLen + 2)}
Edits(t) == {[w |-> FALSE, sl |-> p[1], sc |-> p[2], el |-> q[1], ec |-> q[2], t |-> x] :
               p \in Positions(t), q \in Positions(t), x \in Texts(MaxIns)}
Valid(t, e) == /\ e.sl < e.el \/ (e.sl = e.el /\ e.sc <= e.ec)
               /\ e.sc <= LineLen(t, e.sl) + 1 /\ e.ec <= LineLen(t, e.el) + 1
Init == text \in Texts(MaxLen) /\ last = <<NoEdit, text>> /\ n = 0
Next == /\ n < Depth
        /\ \E e \in Edits(text) : Valid(text, e) /\ Len(Replace(text, e)) <= MaxLen
                                  /\ text' = Replace(text, e) /\ last' = <<e, text>> /\ n' = n + 1
Spec == Init /\ [][Next]_vars
\* line starts: first is 0, strictly increasing, one more than the number of terminators
LinesOk == LET ls == LineStarts(text) IN ls[1] = 0 /\ \A i \in 1..(Len(ls)-1) : ls[i] < ls[i+1] /\ IsEol(text[ls[i+1]])
\* positions are monotone in the text
Monotone == \A p, q \in Positions(text) : (p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])) => Offset(text, p[1], p[2]) <= Offset(text, q[1], q[2])
\* a column beyond the end of the line denotes the end of that line
Clamped == \A p \in Positions(text) : p[1] + 1 < Len(LineStarts(text)) => Offset(text, p[1], p[2]) < LineStarts(text)[p[1]+2]
\* the edit keeps everything outside its range
Frame == ~last[1].w => LET b == Offset(last[2], last[1].sl, last[1].sc)
                           f == Offset(last[2], last[1].el, last[1].ec)
                       IN /\ SubSeq(text, 1, b) = SubSeq(last[2], 1, b)
                          /\ SubSeq(text, Len(text) - (Len(last[2]) - f) + 1, Len(text)) = SubSeq(last[2], f + 1, Len(last[2]))
                          /\ Len(text) = Len(last[2]) - (f - b) + Len(last[1].t)
=============================================================================
