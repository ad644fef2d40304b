-------------------------------- MODULE Text --------------------------------
(* Texts on a screen. TLA+ has no operators on the characters of strings, so *)
(* Text.java (on TLC's class path) implements those below; positions are     *)
(* counted from 0, in characters. MCText.tla checks it against sequences.    *)
(* An expectation is a text in which some characters are marks: mark 0       *)
(* stands for anything, mark i > 0 for a cell of field i.                    *)
EXTENDS Integers, Sequences

TLen(t)       == CHOOSE x \in {} : TRUE  \* number of characters
TSub(t, i, n) == CHOOSE x \in {} : TRUE  \* at most n characters from position i
TRep(c, n)    == CHOOSE x \in {} : TRUE  \* text c, n times
TPut(t, i, u) == CHOOSE x \in {} : TRUE  \* t with u at position i (which may be negative), as far as it fits
TMark(i)      == CHOOSE x \in {} : TRUE  \* the mark i
TField(t, e, i) == CHOOSE x \in {} : TRUE  \* characters of t where e has mark i
TAgrees(t, e) == CHOOSE x \in {} : TRUE  \* same length, and the same characters except at marks
TSplit(t, c)  == CHOOSE x \in {} : TRUE  \* the parts of t between separators c
TTrim(t)      == CHOOSE x \in {} : TRUE  \* without spaces at both ends
TBar(t)       == CHOOSE x \in {} : TRUE  \* length of a bar in eighths, -1 if it is none

(* Exactly n characters from position i, beyond the end c.                   *)
TWindow(t, i, n, c) == TSub(TPut(TRep(c, i + n), 0, t), i, n)
TPad(t, n) == TWindow(t, 0, n, " ")
=============================================================================
