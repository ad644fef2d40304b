----------------------------- MODULE Inference ------------------------------
(* Joint tables of a model, by enumeration (the definition) or, for networks *)
(* too large to enumerate, by elimination.                                   *)
EXTENDS Semantics, Elimination

(* Masses of all assignments of a scope, given fixed outcomes.               *)
EnumJoint(M, fix, scope) ==
  TLCEval([i \in 1..Size(M.card, scope) |-> Mass(M, Assign(M.card, scope, fix, i-1))])

Pool(M, fix) ==
  TLCEval([k \in 1..Len(M.order) |->
     LET v == M.order[k]
     IN RestrictAll(M.card, [scope |-> Append(M.node[v].scope, v), tab |-> M.node[v].tab], fix)])

HiddenVars(M, fix, scope) ==
  {M.order[k] : k \in 1..Len(M.order)} \ ({v \in 1..M.n : fix[v] >= 0} \cup {scope[i] : i \in 1..Len(scope)})

ElimJoint(M, fix, scope) ==
  Collect(M.card, EliminateAll(M.card, Pool(M, fix), HiddenVars(M, fix, scope)), scope).tab

Joint(M, fix, scope, big) == IF big THEN ElimJoint(M, fix, scope) ELSE EnumJoint(M, fix, scope)

(* Utility masses of all assignments of a scope.                             *)
EnumUJoint(M, us, fix, scope) ==
  TLCEval([i \in 1..Size(M.card, scope) |-> UMass(M, us, Assign(M.card, scope, fix, i-1))])

UFactor(M, u) ==
  [scope |-> u.scope,
   tab   |-> TLCEval([r \in 1..(Len(u.tab) \div u.cols) |->
               RMul(u.weight, RSum([c \in 1..u.cols |-> u.tab[(r-1) * u.cols + c]]))])]

ElimUJoint(M, us, fix, scope) ==
  LET one(u) == Collect(M.card, EliminateAll(M.card,
                  Append(Pool(M, fix), RestrictAll(M.card, UFactor(M, u), fix)),
                  HiddenVars(M, fix, scope)), scope).tab
      parts == TLCEval([k \in 1..Len(us) |-> one(us[k])])
  IN TLCEval([i \in 1..Size(M.card, scope) |-> RSum([k \in 1..Len(us) |-> parts[k][i]])])

UJoint(M, us, fix, scope, big) ==
  IF big THEN ElimUJoint(M, us, fix, scope) ELSE EnumUJoint(M, us, fix, scope)

(* Marginal of one variable of a joint table.                                *)
MarginalOf(M, joint, scope, v) ==
  FMarginal(M.card, [scope |-> scope, tab |-> joint], v).tab

Normalised(t) == LET s == RSum(t) IN TLCEval([i \in 1..Len(t) |-> RDiv(t[i], s)])
=============================================================================
