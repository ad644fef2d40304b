----------------------------- MODULE MCAlgebra ------------------------------
(* Laws of factor algebra that the reference for large networks relies on,   *)
(* for all pairs of small factors.                                           *)
EXTENDS FactorAlgebra

CONSTANT Values  \* numbers in tables
Card == << 2, 2, 2 >>

VARIABLES f, g
Factors(scope) == {[scope |-> scope, tab |-> t] : t \in [1..Size(Card, scope) -> Values]}
Init == /\ f \in Factors(<< 1, 2 >>)
        /\ g \in UNION {Factors(s) : s \in {<< 2, 3 >>, << 3 >>, << 2 >>, << >>}}
Next == UNCHANGED << f, g >>

Same(a, b) == SameFunction(Card, a, b)
P(a, b) == FProduct(Card, << a, b >>)
S(a, b) == FSum(Card, << a, b >>)
Out(a, v) == FSumOut(Card, a, v)

Commutes == Same(P(f, g), P(g, f)) /\ Same(S(f, g), S(g, f))
(* What variable elimination is about: a factor that does not know a         *)
(* variable can be taken out of the sum.                                     *)
TakesOut == Same(Out(P(f, g), 1), P(Out(f, 1), g))
Order    == Same(Out(Out(P(f, g), 1), 2), Out(Out(P(f, g), 2), 1))
Linear   == g.scope = << 2 >> => Same(Out(S(f, g), 2), S(Out(f, 2), Out(g, 2)))
Restricts == \A o \in 0..1 :
  /\ Same(FRestrict(Card, P(f, g), 1, o), P(FRestrict(Card, f, 1, o), g))
  /\ Same(FRestrict(Card, Out(P(f, g), 2), 1, o), Out(FRestrict(Card, P(f, g), 1, o), 2))
SumsRestrictions == Same(Out(f, 2), S(FRestrict(Card, f, 2, 0), FRestrict(Card, f, 2, 1)))
Marginals == Same(FMarginal(Card, f, 1), Out(f, 2)) /\ Same(FMarginal(Card, f, 2), Out(f, 1))
Total == FTotal(f) = FTotal(Out(f, 1))
Rearranges == Same(f, FRearrange(Card, f, << 2, 1 >>))
Normal ==
  /\ FTotal(f) # "0" => FTotal(FNormalize(f)) = "1"
  /\ LET n == FNormalizeFor(Card, f, 1)
     IN /\ n.scope = << 2, 1 >>
        /\ \A r \in 0..1 : LET s == RAdd(n.tab[2*r + 1], n.tab[2*r + 2]) IN s \in {"0", "1"}
        \* normalising for a variable is dividing by the sum over it
        /\ LET d == Out(f, 1) IN \A r \in 1..2 : d.tab[r] # "0" => RMul(n.tab[2*r], d.tab[r]) = f.tab[r + 2]
Inverts == (\A i \in 1..Len(f.tab) : f.tab[i] # "0") =>
             \A i \in 1..4 : P(f, FInvert(f)).tab[i] = "1"
Policies ==
  LET p == FPolicy(Card, f, 1)
  IN /\ p.scope = << 2, 1 >>
     /\ \A r \in 0..1 : RAdd(p.tab[2*r + 1], p.tab[2*r + 2]) = "1"
     \* acting by the policy gives the maximum
     /\ LET v == Out(P(p, f), 1) IN \A r \in 1..2 : v.tab[r] = RMax(f.tab[r], f.tab[r + 2])
=============================================================================
