----------------------------- MODULE Documents ------------------------------
(* Descriptions of networks and what can go wrong in writing them: starting  *)
(* from given ones, each step is one slip of the pen. TLC prints what it     *)
(* reaches; Loader says which are acceptable.                                *)
EXTENDS Loader, TLC, Json, IOUtils

Bases == ndJsonDeserialize(IOEnv.BASES)
Depth == atoi(IOEnv.DEPTH)

VARIABLES d, n, b
vars == << d, n, b >>

Strange == "zz"  \* a name nobody has
AllNames == {d.vars[i].name : i \in 1..NV(d)} \cup {Strange}
Insert(q, i, x) == SubSeq(q, 1, i-1) \o << x >> \o SubSeq(q, i, Len(q))
Remove(q, i) == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
Embedded == d.fmt = "yaml"

Init == b \in 1..Len(Bases) /\ d = Bases[b] /\ n = 0

Rename == \E i \in 1..NV(d) : \E x \in AllNames \ {d.vars[i].name} :
  d' = IF Embedded THEN [d EXCEPT !.vars[i].name = x, !.facs[i].for = x] ELSE [d EXCEPT !.vars[i].name = x]
Retype == \E i \in 1..NV(d) : \E t \in {"", "nature", "decision", "utility", "Decision", "chance"} \ {d.vars[i].type} :
  d' = [d EXCEPT !.vars[i].type = t]
MoreOutcomes == \E i \in 1..NV(d) : Len(d.vars[i].outs) < 9 /\
  d' = [d EXCEPT !.vars[i].outs = Append(@, "extra" \o ToString(Len(@)))]
LessOutcomes == \E i \in 1..NV(d) : d.vars[i].outs # << >> /\
  \E k \in {1, Len(d.vars[i].outs)} : d' = [d EXCEPT !.vars[i].outs = Remove(@, k)]
NoOutcomes == \E i \in 1..NV(d) : d' = [d EXCEPT !.vars[i].outs = << >>]
MoreParents == \E k \in 1..Len(d.facs) : \E x \in AllNames : Len(d.facs[k].given) < 4 /\
  \E at \in {1, Len(d.facs[k].given) + 1} : d' = [d EXCEPT !.facs[k].given = Insert(@, at, x)]
LessParents == \E k \in 1..Len(d.facs) : \E at \in 1..Len(d.facs[k].given) :
  d' = [d EXCEPT !.facs[k].given = Remove(@, at)]
OtherParent == \E k \in 1..Len(d.facs) : \E at \in 1..Len(d.facs[k].given) : \E x \in AllNames :
  d' = [d EXCEPT !.facs[k].given[at] = x]
MoreRows == \E k \in 1..Len(d.facs) : Embedded /\ Len(d.facs[k].rows) < 20 /\ d' = [d EXCEPT !.facs[k].rows = Append(@, IF @ = << >> THEN 2 ELSE @[Len(@)])]
LessRows == \E k \in 1..Len(d.facs) : Embedded /\ d.facs[k].rows # << >> /\ d' = [d EXCEPT !.facs[k].rows = Remove(@, Len(@))]
LongRow == \E k \in 1..Len(d.facs) : \E r \in 1..Len(d.facs[k].rows) :
  \E m \in {1, 2} : d' = [d EXCEPT !.facs[k].rows[r] = @ + m]
ShortRow == \E k \in 1..Len(d.facs) : \E r \in 1..Len(d.facs[k].rows) :
  \E m \in {1, 2} : d.facs[k].rows[r] >= m /\ d' = [d EXCEPT !.facs[k].rows[r] = @ - m]
UnevenRows == \E k \in 1..Len(d.facs) : Embedded /\ \E r, t \in 1..Len(d.facs[k].rows) : r # t /\ d.facs[k].rows[t] > 0 /\
  d' = [d EXCEPT !.facs[k].rows[r] = @ + 1, !.facs[k].rows[t] = @ - 1]
Flatten == \E k \in 1..Len(d.facs) : Embedded /\ Len(d.facs[k].rows) >= 2 /\ d' = [d EXCEPT !.facs[k].rows = << Plus(@) >>]
NoTable == \E k \in 1..Len(d.facs) : d.facs[k].rows # << >> /\ d' = [d EXCEPT !.facs[k].rows = << >>]
Empty == \E k \in 1..Len(d.facs) : ~Embedded /\ d' = [d EXCEPT !.facs[k].rows = << 0 >>]
Logics == {<< "and", << >> >>, << "not", << >> >>, << "count-true", << >> >>, << "bits", << >> >>, << "given", << 0 >> >>, << "given", << 2 >> >>,
           << "count-is", << 1 >> >>, << "outcome-is", << 0, 2 >> >>, << "outcome-is", << 0, 4 >> >>, << "outcome-less", << 1, 3 >> >>,
           << "outcome-is", << 3, 3 >> >>, << "outcome-either", << 0, -1, 3 >> >>, << "outcome-either", << 3 >> >>,
           << "nand", << >> >>, << "and", << 1 >> >>, << "count-is", << >> >>, << "if-then", << >> >>, << "or-not", << >> >> }
PutLogic == \E k \in 1..Len(d.facs) : Embedded /\ \E l \in Logics : \E both \in BOOLEAN : \E bad \in {FALSE} \cup (IF l[2] = << >> THEN {} ELSE {TRUE}) :
  d' = [d EXCEPT !.facs[k].op = l[1], !.facs[k].args = l[2], !.facs[k].bad = bad, !.facs[k].rows = IF both THEN @ ELSE << >>]
Drop == \E i \in 1..NV(d) : d' = IF Embedded THEN [d EXCEPT !.vars = Remove(@, i), !.facs = Remove(@, i)] ELSE [d EXCEPT !.vars = Remove(@, i)]
Twice == \E i \in 1..NV(d) : NV(d) < 7 /\ d' = IF Embedded THEN [d EXCEPT !.vars = Append(@, @[i]), !.facs = Append(@, @[i])] ELSE [d EXCEPT !.vars = Append(@, @[i])]
Copied == \E i \in 1..NV(d) : NV(d) < 7 /\ ~IsName(d, Strange) /\
  LET v == [d.vars[i] EXCEPT !.name = Strange]
      f == IF Of(d, i) = {} THEN << >> ELSE << [d.facs[CHOOSE k \in Of(d, i) : TRUE] EXCEPT !.for = Strange] >>
  IN \E first \in BOOLEAN :
       d' = IF first THEN [d EXCEPT !.vars = << v >> \o @, !.facs = f \o @] ELSE [d EXCEPT !.vars = Append(@, v), !.facs = @ \o f]
(* Changes in which the table follows, so that its length does not give them *)
(* away.                                                                     *)
Tabled(k) == d.facs[k].op = "" /\ d.facs[k].rows # << >>
Fitted(k, c) == IF Embedded THEN [i \in 1..(Len(d.facs[k].rows) * c) |-> d.facs[k].rows[((i-1) % Len(d.facs[k].rows)) + 1]]
              ELSE [i \in 1..Len(d.facs[k].rows) |-> d.facs[k].rows[i] * c]
MoreParentsFit == \E k \in 1..Len(d.facs) : \E x \in AllNames : Tabled(k) /\ Len(d.facs[k].given) < 4 /\
  \E at \in {1, Len(d.facs[k].given) + 1} :
    \E c \in IF IsName(d, x) THEN {Len(d.vars[At(d, x)].outs)} ELSE {1, 2} : Plus(d.facs[k].rows) * c <= 60 /\
      d' = [d EXCEPT !.facs[k].given = Insert(@, at, x), !.facs[k].rows = Fitted(k, c)]
MoreOutcomesFit == \E i \in 1..NV(d) : \E k \in Of(d, i) : Tabled(k) /\ Len(d.vars[i].outs) \in 1..8 /\
  LET m == Len(d.vars[i].outs)
  IN d' = [d EXCEPT !.vars[i].outs = Append(@, "extra" \o ToString(m)),
                    !.facs[k].rows = [r \in 1..Len(d.facs[k].rows) |-> (d.facs[k].rows[r] \div m) * (m + 1)]]
LessOutcomesFit == \E i \in 1..NV(d) : \E k \in Of(d, i) : Tabled(k) /\ Len(d.vars[i].outs) > 0 /\
  LET m == Len(d.vars[i].outs)
  IN d' = [d EXCEPT !.vars[i].outs = Remove(@, m),
                    !.facs[k].rows = [r \in 1..Len(d.facs[k].rows) |-> (d.facs[k].rows[r] \div m) * (m - 1)]]
Swap == \E i \in 2..NV(d) : d' = [d EXCEPT !.vars[i] = d.vars[1], !.vars[1] = d.vars[i],
          !.facs = IF Embedded THEN [@ EXCEPT ![i] = d.facs[1], ![1] = d.facs[i]] ELSE @]
DropFactor == ~Embedded /\ \E k \in 1..Len(d.facs) : d' = [d EXCEPT !.facs = Remove(@, k)]
TwiceFactor == ~Embedded /\ Len(d.facs) < 7 /\ \E k \in 1..Len(d.facs) : d' = [d EXCEPT !.facs = Append(@, @[k])]
OtherFactor == ~Embedded /\ \E k \in 1..Len(d.facs) : \E x \in AllNames : d' = [d EXCEPT !.facs[k].for = x]
Value == \E k \in 1..Len(d.facs) : \E x \in {"neg", "nan", "inf"} : Plus(d.facs[k].rows) > 0 /\ d' = [d EXCEPT !.facs[k].odd = x]
Junk == Embedded /\ ~d.junk /\ d' = [d EXCEPT !.junk = TRUE]
Extension == d.fmt # "new" /\ \E x \in {".yml", ".YML", ".xml", ".bifxml", ".BifXml", ".yaml", ".txt", ".json"} \ {d.ext} : d' = [d EXCEPT !.ext = x]

Slip == \/ Rename \/ Retype \/ MoreOutcomes \/ LessOutcomes \/ NoOutcomes \/ MoreParents \/ LessParents \/ OtherParent
        \/ MoreRows \/ LessRows \/ LongRow \/ ShortRow \/ UnevenRows \/ Flatten \/ NoTable \/ Empty \/ PutLogic
        \/ Copied \/ MoreParentsFit \/ MoreOutcomesFit \/ LessOutcomesFit
        \/ Drop \/ Twice \/ Swap \/ DropFactor \/ TwiceFactor \/ OtherFactor \/ Value \/ Junk \/ Extension
Next == n < Depth /\ n' = n + 1 /\ b' = b /\ Slip

(* For random descriptions, only the last of several steps is shown.         *)
Emit == n = Depth /\ n' = Depth + 1 /\ UNCHANGED << d, b >> /\ PrintT(<< "DOC", ToJson(d) >>)
NextShown == Next \/ Emit

View == d
SameCycles == NamesOk(d) /\ ParentsOk(d) => (Acyclic(d) <=> AcyclicDef(d))
Show == PrintT(<< "DOC", ToJson(d) >>)
=============================================================================
