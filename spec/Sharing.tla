------------------------------ MODULE Sharing -------------------------------
(* Why answers may depend on the history of calls: memory. A network keeps   *)
(* tables and policies in memory cells, calls hand out cells, clients        *)
(* overwrite what they got, trainers and solvers replace what is kept.       *)
(* The design choices are: do results alias the tables (Alias), do solved    *)
(* policies alias what is handed out (AliasPolicies), are answers remembered *)
(* (Memo), and are remembered answers forgotten when something changes       *)
(* (Forget). TLC shows that the properties users rely on hold if nothing is  *)
(* shared and nothing remembered, and finds the histories that break them    *)
(* for each of the other choices. Histories of this kind are executed on the *)
(* code by way of module Histories.                                          *)
EXTENDS Integers, Sequences

CONSTANTS Depth, Alias, AliasPolicies, Memo, Forget

VARIABLES mem,     \* contents of the cells
          tab,     \* cell of the tables
          pol,     \* cell of the policies, 0 if there are none
          ver,     \* what the tables should be: number of trainings
          pver,    \* what the policies should be: tables they were solved for, -1 if there are none
          held,    \* results handed out: [cell, due]
          memo,    \* remembered answer: cell, or 0
          wrong,   \* some answer was not what a fresh network gives
          steps
vars == << mem, tab, pol, ver, pver, held, memo, wrong, steps >>

Junk == << -9 >>
New(x) == Append(mem, x)
Cell == Len(mem) + 1

Init == /\ mem = << << 0 >> >> /\ tab = 1 /\ pol = 0 /\ ver = 0 /\ pver = -1
        /\ held = << >> /\ memo = 0 /\ wrong = FALSE /\ steps = 0

(* What a network says, and what a fresh one would say.                      *)
Says  == IF pol = 0 THEN mem[tab] ELSE mem[tab] \o mem[pol]
Fresh == IF pver < 0 THEN << ver >> ELSE << ver, pver >>

Query ==
  LET reuse == Memo /\ memo # 0
      alias == Alias /\ pol = 0
      cell  == IF reuse THEN memo ELSE IF alias THEN tab ELSE Cell
      ans   == IF reuse THEN mem[memo] ELSE Says
  IN /\ mem' = IF reuse \/ alias THEN mem ELSE New(ans)
     /\ held' = Append(held, [cell |-> cell, due |-> ans])
     /\ memo' = IF Memo THEN cell ELSE 0
     /\ wrong' = (wrong \/ ans # Fresh)
     /\ UNCHANGED << tab, pol, ver, pver >>

Solve == \* hands out the policies, too
  LET content == mem[tab]
      two == Append(New(content), content)
  IN /\ mem' = two
     /\ pol' = Cell /\ pver' = ver
     /\ held' = Append(held, [cell |-> IF AliasPolicies THEN Cell ELSE Cell + 1, due |-> content])
     /\ memo' = IF Forget THEN 0 ELSE memo
     /\ wrong' = (wrong \/ content # << ver >>)
     /\ UNCHANGED << tab, ver >>

Train == /\ mem' = New(<< ver + 1 >>)
         /\ tab' = Cell /\ ver' = ver + 1
         /\ memo' = IF Forget THEN 0 ELSE memo
         /\ UNCHANGED << pol, pver, held, wrong >>

Scribble == \E k \in 1..Len(held) :
         /\ mem' = [mem EXCEPT ![held[k].cell] = Junk]
         /\ held' = [held EXCEPT ![k].due = Junk]
         /\ UNCHANGED << tab, pol, ver, pver, memo, wrong >>

Next == steps < Depth /\ steps' = steps + 1 /\ (Query \/ Solve \/ Train \/ Scribble)

FreshAnswers == ~wrong
ResultsStay  == \A k \in 1..Len(held) : mem[held[k].cell] = held[k].due
=============================================================================
