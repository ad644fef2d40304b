------------------------------ MODULE MCPolicy ------------------------------
(* Solving decisions as a state machine: last decision first, each with the  *)
(* policies of the later ones in force, choosing in every situation any of   *)
(* the best options. For all decision networks with N binary variables (up   *)
(* to the order of declaration) and one utility node:                        *)
(*  - Value and MEU of module Semantics, against which the code is judged,   *)
(*    are right: no pure policies do better, and some do as well;            *)
(*  - in every situation, the step by step view sees the same best options   *)
(*    as Semantics, whatever ties were broken before;                        *)
(*  - acting by the result gives the maximum expected utility.               *)
(* With LastFirst = FALSE decisions are solved first to last, with uniform   *)
(* later ones; TLC shows that this is wrong.                                 *)
EXTENDS Inference

CONSTANTS N, Salts, LastFirst

VARIABLES net, pol, todo
vars == << net, pol, todo >>

U == N + 1
Entry(v, i, salt) == RInt((i * i + 2 * i + 3 * v + salt) % 4)
UValues == << 0, 5, 3, 3, 1, -2, 4, 4, 2 >>
UEntry(i, salt)   == RInt(UValues[((i - 1 + 3 * salt) % 9) + 1])

Net(type, par, salt) ==
  LET ps   == [v \in 1..U |-> SeqOf(par[v])]
      card == [v \in 1..U |-> IF v = U THEN 1 ELSE 2]
  IN [n |-> U, type |-> [v \in 1..U |-> IF v = U THEN "u" ELSE type[v]], card |-> card, total |-> 0, par |-> ps,
      tab |-> [v \in 1..U |->
                 IF v = U THEN TLCEval([i \in 1..Size(card, ps[v]) |-> UEntry(i, salt)])
                 ELSE IF type[v] = "d" THEN << >>
                 ELSE TLCEval([i \in 1..(Size(card, ps[v]) * 2) |-> Entry(v, i, salt)])]]

M(p) == Model(net, NormTables(net), Topo(net), p, {})
M0   == M(NoPolicies(net))
Us   == TotalUtility(net)
Rev  == Reveal(net)

InfoScope(d) == SeqOf(InfoSet(net, d))

(* A pure policy: an option for each row of the information scope.           *)
Pure(d, choice) ==
  LET s == InfoScope(d)
  IN [has |-> TRUE, scope |-> s,
      tab |-> TLCEval([i \in 1..(Size(net.card, s) * 2) |->
                 IF choice[(i - 1) \div 2] = (i - 1) % 2 THEN "1" ELSE "0"])]
Choices(d) == [0..(Size(net.card, InfoScope(d)) - 1) -> 0..1]

(* Expected utilities of the options, with the policies found so far.        *)
Seen(d, fix) == [o \in 1..2 |-> UMass(M(pol), Us, [fix EXCEPT ![d] = o-1])]
Situation(d, r) == Assign(net.card, InfoScope(d), Free(net), r)

Init ==
  /\ \E type \in [1..N -> {"c", "d"}],
        par \in {p \in [1..U -> SUBSET (1..N)] : p[U] # {} /\ \A v \in 1..N : p[v] \subseteq 1..(v-1)},
        salt \in Salts :
       /\ Cardinality({v \in 1..N : type[v] = "d"}) \in 1..2
       /\ net = Net(type, par, salt)
  /\ NoForgetting(net)
  /\ pol = NoPolicies(net)
  /\ todo = DecisionOrder(net)

Solve(d) == \E c \in Choices(d) :
  /\ \A r \in DOMAIN c : LET x == Seen(d, Situation(d, r)) IN RLe(x[2 - c[r]], x[c[r] + 1])
  /\ pol' = [pol EXCEPT ![d] = Pure(d, c)]

Next == /\ todo # << >>
        /\ IF LastFirst THEN Solve(todo[Len(todo)]) /\ todo' = SubSeq(todo, 1, Len(todo) - 1)
           ELSE Solve(Head(todo)) /\ todo' = Tail(todo)
        /\ UNCHANGED net

------------------------------------------------------------------------------
Best0 == MEU(net, M0, Us)

(* All combinations of pure policies.                                        *)
PureModels ==
  LET ds == DecisionOrder(net)
      one(p, d) == {[p EXCEPT ![d] = Pure(d, c)] : c \in Choices(d)}
  IN IF Len(ds) = 1 THEN one(NoPolicies(net), ds[1])
     ELSE UNION {one(p, ds[2]) : p \in one(NoPolicies(net), ds[1])}

ValueIsRight ==
  todo = DecisionOrder(net) =>
    LET eus == {UMass(M(p), Us, Free(net)) : p \in PureModels}
    IN Best0 \in eus /\ \A e \in eus : RLe(e, Best0)

(* Which options look best, now and by definition.                           *)
SameView ==
  (LastFirst /\ todo # << >>) =>
    LET d == todo[Len(todo)]
    IN \A r \in 0..(Size(net.card, InfoScope(d)) - 1) :
         LET fix == Situation(d, r)
         IN Best(Seen(d, fix), "0") = Best(OptionValues(net, M0, Us, Rev, d, fix), "0")

Optimal == todo = << >> => UMass(M(pol), Us, Free(net)) = Best0
=============================================================================
