---------------------------- MODULE Elimination -----------------------------
(* Variable elimination: a pool of factors, from which variables are summed  *)
(* out in any order. MCElimination checks, over all orders, that the result  *)
(* is what Semantics says; that justifies using it as the reference for      *)
(* networks that are too large to enumerate.                                 *)
EXTENDS FactorAlgebra

RECURSIVE Restricted(_, _, _, _)
Restricted(card, f, fix, k) ==  \* all of the first k variables that are fixed
  IF k = 0 THEN f
  ELSE LET v == f.scope[k]
       IN Restricted(card, IF fix[v] >= 0 THEN FRestrict(card, f, v, fix[v]) ELSE f, fix, k-1)
RestrictAll(card, f, fix) == Restricted(card, f, fix, Len(f.scope))

InPool(pool, v)    == SelectSeq(pool, LAMBDA f : v \in ScopeSet(f))
NotInPool(pool, v) == SelectSeq(pool, LAMBDA f : v \notin ScopeSet(f))

(* One step: the factors about v are replaced by their product without v.    *)
EliminateVar(card, pool, v) ==
  IF InPool(pool, v) = << >> THEN pool
  ELSE Append(NotInPool(pool, v), FSumOut(card, FProduct(card, InPool(pool, v)), v))

Cost(card, pool, v) == Size(card, Union(InPool(pool, v), 1, << >>))

RECURSIVE EliminateAll(_, _, _)
EliminateAll(card, pool, hidden) ==  \* cheapest first
  IF hidden = {} THEN pool
  ELSE LET cost == [v \in hidden |-> Cost(card, pool, v)]
           v == CHOOSE w \in hidden : \A x \in hidden : cost[w] < cost[x] \/ (cost[w] = cost[x] /\ w <= x)
       IN EliminateAll(card, EliminateVar(card, pool, v), hidden \ {v})

(* The product of what is left, in the order of a given scope. Variables of  *)
(* the scope that no factor mentions make no difference.                     *)
Collect(card, pool, scope) ==
  LET f == FProduct(card, pool)
  IN Tabulate(card, scope, LAMBDA a : At(card, f, a))
=============================================================================
