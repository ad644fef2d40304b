------------------------------- MODULE Radix --------------------------------
(* Mixed-radix numbers: rows of tables by outcomes. The first variable of a *)
(* scope varies slowest. Radix.java (on TLC's class path) evaluates Row and *)
(* Size faster; MCRadix.tla checks it against RowDef, SizeDef.         *)
EXTENDS Integers, Sequences

(* Row number of an assignment a for the first k variables of a scope. *)
RECURSIVE RowIdx(_, _, _, _)
RowIdx(card, scope, a, k) ==
  IF k = 0 THEN 0 ELSE RowIdx(card, scope, a, k-1) * card[scope[k]] + a[scope[k]]
RowDef(card, scope, a) == RowIdx(card, scope, a, Len(scope))
Row(card, scope, a) == RowDef(card, scope, a)

(* Number of rows of a scope. *)
RECURSIVE ProdCard(_, _, _)
ProdCard(card, scope, k) ==
  IF k = 0 THEN 1 ELSE ProdCard(card, scope, k-1) * card[scope[k]]
SizeDef(card, scope) == ProdCard(card, scope, Len(scope))
Size(card, scope) == SizeDef(card, scope)

(* The i-th (from 0) assignment of a scope, written over a base assignment. *)
RECURSIVE Unrank(_, _, _, _, _)
Unrank(card, scope, a, i, k) ==
  IF k = 0 THEN a
  ELSE Unrank(card, scope, [a EXCEPT ![scope[k]] = i % card[scope[k]]], i \div card[scope[k]], k-1)
Assign(card, scope, a, i) == Unrank(card, scope, a, i, Len(scope))
=============================================================================
