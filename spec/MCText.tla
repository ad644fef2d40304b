------------------------------- MODULE MCText -------------------------------
(* Checks Text.java against sequences of characters, on all short texts.     *)
EXTENDS Text, TLC

CONSTANT Max
Alphabet == {"a", " ", ",", "█"}

Seqs(k) == UNION {[1..n -> Alphabet] : n \in 0..k}

RECURSIVE Str(_)
Str(s) == IF s = << >> THEN "" ELSE Str(SubSeq(s, 1, Len(s)-1)) \o s[Len(s)]

VARIABLES s, u, i, n
Init == s \in Seqs(Max) /\ u \in Seqs(2) /\ i \in -1..Max /\ n \in 0..Max
Next == UNCHANGED << s, u, i, n >>

Clip(q, from, k) == SubSeq(q, from + 1, IF from + k > Len(q) THEN Len(q) ELSE from + k)

RECURSIVE Split(_, _)
Split(q, part) ==
  IF q = << >> THEN << part >>
  ELSE IF Head(q) = "," THEN << part >> \o Split(Tail(q), << >>)
  ELSE Split(Tail(q), Append(part, Head(q)))

RECURSIVE Trim(_)
Trim(q) ==
  IF q # << >> /\ Head(q) = " " THEN Trim(Tail(q))
  ELSE IF q # << >> /\ q[Len(q)] = " " THEN Trim(SubSeq(q, 1, Len(q)-1))
  ELSE q

Put(q, at, w) == [k \in 1..Len(q) |-> IF k - 1 >= at /\ k - 1 < at + Len(w) THEN w[k - at] ELSE q[k]]

Basics ==
  /\ TLen(Str(s)) = Len(s)
  /\ i >= 0 => TSub(Str(s), i, n) = Str(Clip(s, i, n))
  /\ TPut(Str(s), i, Str(u)) = Str(Put(s, i, u))
  /\ TTrim(Str(s)) = Str(Trim(s))
  /\ TRep("ab", n) = Str([k \in 1..(2*n) |-> IF k % 2 = 1 THEN "a" ELSE "b"])
Parts ==
  LET p == Split(s, << >>)
  IN TSplit(Str(s), ",") = [k \in 1..Len(p) |-> Str(p[k])]
(* A mark at position i hides one character, and its field is that character. *)
Marks ==
  (i >= 0 /\ i < Len(s)) =>
     LET e == TPut(Str(s), i, TMark(1))
     IN /\ TAgrees(Str(s), e)
        /\ TField(Str(s), e, 1) = s[i + 1]
        /\ TField(Str(s), e, 2) = ""
        /\ TAgrees(Str(s), Str(s))
        /\ Len(u) = Len(s) => (TAgrees(Str(u), Str(s)) = (u = s))
Windows ==
  i >= 0 => /\ TLen(TWindow(Str(s), i, n, " ")) = n
            /\ \A k \in 1..n : TSub(TWindow(Str(s), i, n, "."), k-1, 1) = (IF i + k <= Len(s) THEN s[i + k] ELSE ".")
Bars ==
  /\ TBar("") = 0 /\ TBar("█") = 8 /\ TBar("██▌░") = 20 /\ TBar("▏") = 1 /\ TBar("▉░░") = 7
  /\ TBar("░█") = -1 /\ TBar("a") = -1 /\ TBar("▌█") = -1
=============================================================================
