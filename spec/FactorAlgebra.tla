--------------------------- MODULE FactorAlgebra ----------------------------
(* Factors are functions from joint outcomes of a scope to numbers, stored   *)
(* as a table in the row-major order of the scope. card maps all variables   *)
(* to their numbers of outcomes; assignments map all variables to outcomes,  *)
(* -1 for those not of interest.                                             *)
EXTENDS Rat, Radix, FiniteSets, TLC

None(card) == TLCEval([v \in 1..Len(card) |-> -1])
At(card, f, a) == f.tab[Row(card, f.scope, a) + 1]

(* The factor with a scope and a value for each assignment of the scope.     *)
Tabulate(card, scope, Val(_)) ==
  LET none == None(card)
  IN [scope |-> scope,
      tab   |-> TLCEval([i \in 1..Size(card, scope) |-> Val(Assign(card, scope, none, i-1))])]

ScopeSet(f) == {f.scope[i] : i \in 1..Len(f.scope)}
Without(scope, v) == SelectSeq(scope, LAMBDA w : w # v)

RECURSIVE Union(_, _, _)
(* The scopes of factors i.. appended, without repetitions.                  *)
Union(fs, i, scope) ==
  IF i > Len(fs) THEN scope
  ELSE LET have == {scope[k] : k \in 1..Len(scope)}
       IN Union(fs, i+1, scope \o SelectSeq(fs[i].scope, LAMBDA v : v \notin have))

RECURSIVE RProd(_, _)
RProd(s, k) == IF k = 0 THEN "1" ELSE RMul(RProd(s, k-1), s[k])

FRestrict(card, f, v, o) ==
  Tabulate(card, Without(f.scope, v), LAMBDA a : At(card, f, [a EXCEPT ![v] = o]))

FSumOut(card, f, v) ==
  Tabulate(card, Without(f.scope, v),
           LAMBDA a : RSum([o \in 1..card[v] |-> At(card, f, [a EXCEPT ![v] = o-1])]))

FProduct(card, fs) ==
  Tabulate(card, Union(fs, 1, << >>),
           LAMBDA a : RProd([i \in 1..Len(fs) |-> At(card, fs[i], a)], Len(fs)))

FSum(card, fs) ==
  Tabulate(card, Union(fs, 1, << >>),
           LAMBDA a : RSum([i \in 1..Len(fs) |-> At(card, fs[i], a)]))

(* Sum over everything but one variable.                                     *)
FMarginal(card, f, v) ==
  LET n == Len(f.tab)
      none == None(card)
      val == TLCEval([i \in 1..n |-> Assign(card, f.scope, none, i-1)[v]])
  IN [scope |-> << v >>,
      tab |-> TLCEval([o \in 1..card[v] |->
                RSum([i \in 1..n |-> IF val[i] = o-1 THEN f.tab[i] ELSE "0"])])]

FTotal(f) == RSum(f.tab)

(* "NaN" where there is nothing to normalise.                                *)
FNormalize(f) ==
  LET s == FTotal(f)
  IN [scope |-> f.scope,
      tab |-> TLCEval([i \in 1..Len(f.tab) |-> IF s = "0" THEN "NaN" ELSE RDiv(f.tab[i], s)])]

LastScope(scope, v) == Append(Without(scope, v), v)

FRearrange(card, f, scope) == Tabulate(card, scope, LAMBDA a : At(card, f, a))

(* Rows for one variable are normalised, all-zero rows stay.                 *)
FNormalizeFor(card, f, v) ==
  LET total == FSumOut(card, f, v)
  IN Tabulate(card, LastScope(f.scope, v),
       LAMBDA a : LET s == At(card, total, a)
                  IN IF s = "0" THEN At(card, f, a) ELSE RDiv(At(card, f, a), s))

(* "any": 1/0 is nothing to rely on, nor is the inverse of a number so small *)
(* that it is out of range.                                                  *)
FInvert(f) ==
  [scope |-> f.scope,
   tab |-> TLCEval([i \in 1..Len(f.tab) |-> IF RLt(RAbs(f.tab[i]), Tiny) THEN "any" ELSE RDiv("1", f.tab[i])])]

RECURSIVE Largest(_, _, _)
Largest(x, i, k) ==
  IF i = k THEN x[i]
  ELSE LET m == (i + k) \div 2 IN RMax(Largest(x, i, m), Largest(x, m+1, k))

(* Equal shares for the options with the largest value.                      *)
FPolicy(card, f, v) ==
  LET row(a) == TLCEval([o \in 1..card[v] |-> At(card, f, [a EXCEPT ![v] = o-1])])
      best   == Tabulate(card, Without(f.scope, v), LAMBDA a : Largest(row(a), 1, card[v]))
      ties   == Tabulate(card, Without(f.scope, v),
                  LAMBDA a : LET x == row(a)
                                 m == At(card, best, a)
                             IN RInt(Cardinality({o \in 1..card[v] : x[o] = m})))
  IN Tabulate(card, LastScope(f.scope, v),
       LAMBDA a : IF At(card, f, a) = At(card, best, a) THEN RDiv("1", At(card, ties, a)) ELSE "0")

(* Same function, whatever the order of the scopes.                          *)
SameFunction(card, f, g) ==
  /\ ScopeSet(f) = ScopeSet(g)
  /\ Len(f.scope) = Len(g.scope)
  /\ FRearrange(card, f, g.scope).tab = g.tab
=============================================================================
