------------------------------ MODULE MCRadix -------------------------------
(* Checks Radix.java against the definitions, on all small scopes, and that  *)
(* rows and assignments convert into each other without loss.                *)
EXTENDS Radix, TLC

CONSTANT Max
Card == << 2, 3, 1, 4 >>

VARIABLES scope, row
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Init == /\ scope \in {s \in UNION {[1..n -> 1..4] : n \in 0..Max} : Distinct(s)}
        /\ row \in 0..(SizeDef(Card, scope) - 1)
Next == UNCHANGED << scope, row >>

Base == << -1, -1, -1, -1 >>
A == Assign(Card, scope, Base, row)

Faster == Size(Card, scope) = SizeDef(Card, scope) /\ Row(Card, scope, A) = RowDef(Card, scope, A)
Lossless ==
  /\ Row(Card, scope, A) = row
  /\ \A v \in 1..4 : IF \E i \in 1..Len(scope) : scope[i] = v THEN A[v] \in 0..(Card[v]-1) ELSE A[v] = -1
=============================================================================
