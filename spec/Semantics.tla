----------------------------- MODULE Semantics ------------------------------
(* What a Bayesian decision network means, by enumeration of all joint       *)
(* outcomes in exact arithmetic. Nothing here knows about factors, variable  *)
(* elimination or floating point: this is the meaning users rely on.         *)
(*                                                                           *)
(* A network is a record                                                     *)
(*   n      number of variables; variables are 1..n in declaration order     *)
(*   type   sequence of "c" (chance), "d" (decision), "u" (utility)          *)
(*   card   sequence of numbers of outcomes; outcomes are 0..card[v]-1       *)
(*   par    sequence of sequences of parents                                 *)
(*   tab    sequence of tables, row-major, the first parent varying slowest, *)
(*          the variable itself fastest; << >> if there is none              *)
(*   total  the total-utility node, whose table holds weights, or 0          *)
(* A policy assignment maps decisions to records [has, scope, tab].          *)
EXTENDS Rat, Radix, FiniteSets, TLC

Vars(net)      == 1..net.n
Chance(net)    == {v \in Vars(net) : net.type[v] = "c"}
Decisions(net) == {v \in Vars(net) : net.type[v] = "d"}
Utilities(net) == {v \in Vars(net) : net.type[v] = "u" /\ v # net.total}
Random(net)    == Chance(net) \cup Decisions(net)

(* Table rows of chance variables are normalised; all-zero rows stay zero.  *)
NormTable(tab, cols) ==
  LET rows == Len(tab) \div cols
      sum  == TLCEval([r \in 1..rows |-> RSum([c \in 1..cols |-> tab[(r-1)*cols + c]])])
  IN TLCEval([i \in 1..Len(tab) |->
        LET s == sum[((i-1) \div cols) + 1] IN IF s = "0" THEN tab[i] ELSE RDiv(tab[i], s)])

(* A missing table counts as all zeros. *)
FullTable(net, v) ==
  IF net.tab[v] # << >> THEN net.tab[v]
  ELSE TLCEval([i \in 1..(Size(net.card, net.par[v]) * net.card[v]) |-> "0"])

(* Topological order of the non-utility variables. *)
RECURSIVE TopoFrom(_, _, _)
TopoFrom(net, done, left) ==
  IF left = {} THEN done
  ELSE LET ready == {v \in left : \A i \in 1..Len(net.par[v]) : net.par[v][i] \notin left}
           v == CHOOSE w \in ready : \A x \in ready : w <= x
       IN TopoFrom(net, Append(done, v), left \ {v})
Topo(net) == TopoFrom(net, << >>, Random(net))

NoPolicy == [has |-> FALSE, scope |-> << >>, tab |-> << >>]
NoPolicies(net) == [v \in Vars(net) |-> NoPolicy]

Ones(k) == TLCEval([i \in 1..k |-> "1"])

(* The model of a network under policies: one conditional weight table per   *)
(* non-utility variable. Decisions without a policy, and those in drop, have *)
(* weight 1 for every option. Computed once per configuration (see Session). *)
Model(net, norm, order, pol, drop) ==
  [n     |-> net.n,
   card  |-> net.card,
   order |-> order,
   node  |-> [v \in Vars(net) |->
      CASE net.type[v] = "c" -> [scope |-> net.par[v], tab |-> norm[v]]
        [] net.type[v] = "d" ->
             IF pol[v].has /\ v \notin drop
             THEN [scope |-> pol[v].scope, tab |-> pol[v].tab]
             ELSE [scope |-> << >>, tab |-> Ones(net.card[v])]
        [] OTHER -> [scope |-> << >>, tab |-> << >>]]]

NormTables(net) ==
  [v \in Vars(net) |->
     IF net.type[v] = "c" THEN NormTable(FullTable(net, v), net.card[v]) ELSE net.tab[v]]

Weight(M, v, a, o) ==
  M.node[v].tab[Row(M.card, M.node[v].scope, a) * M.card[v] + o + 1]

Free(net) == TLCEval([v \in Vars(net) |-> -1])
Fix(net, pairs) ==  \* sequence of <<variable, outcome>>
  [v \in Vars(net) |->
     LET I == {i \in 1..Len(pairs) : pairs[i][1] = v}
     IN IF I = {} THEN -1 ELSE pairs[CHOOSE i \in I : TRUE][2]]

(* Total weight of all joint outcomes that agree with fix (-1: not fixed).   *)
RECURSIVE MassFrom(_, _, _, _)
MassFrom(M, k, a, fix) ==
  IF k > Len(M.order) THEN "1"
  ELSE LET v == M.order[k]
           branch(o) == LET w == Weight(M, v, a, o)
                        IN IF w = "0" THEN "0"
                           ELSE RMul(w, MassFrom(M, k+1, [a EXCEPT ![v] = o], fix))
       IN IF fix[v] >= 0 THEN branch(fix[v])
          ELSE RSum([o \in 1..M.card[v] |-> branch(o-1)])

Nothing(n) == TLCEval([v \in 1..n |-> -1])
Mass(M, fix) == MassFrom(M, 1, Nothing(M.n), fix)

(* Utilities us is a sequence of [scope, tab, cols, weight].                 *)
RECURSIVE UtilFrom(_, _, _)
UtilFrom(M, us, a) ==
  RSum([i \in 1..Len(us) |->
    LET u == us[i]
        r == Row(M.card, u.scope, a)
    IN RMul(u.weight, RSum([c \in 1..u.cols |-> u.tab[r * u.cols + c]]))])

RECURSIVE UMassFrom(_, _, _, _, _)
UMassFrom(M, us, k, a, fix) ==
  IF k > Len(M.order) THEN UtilFrom(M, us, a)
  ELSE LET v == M.order[k]
           branch(o) == LET w == Weight(M, v, a, o)
                        IN IF w = "0" THEN "0"
                           ELSE RMul(w, UMassFrom(M, us, k+1, [a EXCEPT ![v] = o], fix))
       IN IF fix[v] >= 0 THEN branch(fix[v])
          ELSE RSum([o \in 1..M.card[v] |-> branch(o-1)])

(* Sum over the agreeing outcomes of weight times utility.                   *)
UMass(M, us, fix) == UMassFrom(M, us, 1, Nothing(M.n), fix)

UtilitySeq(net) ==  \* utility nodes in declaration order
  SelectSeq([i \in 1..net.n |-> i], LAMBDA v : v \in Utilities(net))

WeightOf(net, u) ==
  IF net.total = 0 THEN "1"
  ELSE LET I == {i \in 1..Len(net.par[net.total]) : net.par[net.total][i] = u}
       IN IF I = {} THEN "0" ELSE net.tab[net.total][CHOOSE i \in I : TRUE]

Utility(net, u, w) ==
  [scope |-> net.par[u], tab |-> FullTable(net, u), cols |-> net.card[u], weight |-> w]

TotalUtility(net) ==
  LET us == UtilitySeq(net) IN [i \in 1..Len(us) |-> Utility(net, us[i], WeightOf(net, us[i]))]
SingleUtility(net, u) == << Utility(net, u, "1") >>

(* Upper bound for the magnitude of anything summed up for a utility. *)
Magnitude(us) ==
  LET abs(u) == RMul(RAbs(u.weight), RSum([i \in 1..Len(u.tab) |-> RAbs(u.tab[i])]))
  IN RAdd(Tiny, RSum([i \in 1..Len(us) |-> abs(us[i])]))

------------------------------------------------------------------------------
(* Posterior marginal of q; meaningful if the evidence has positive mass.    *)
Posterior(M, fix, q) ==
  LET m == [o \in 1..M.card[q] |-> Mass(M, [fix EXCEPT ![q] = o-1])]
      s == RSum(m)
  IN [o \in 1..M.card[q] |-> RDiv(m[o], s)]

------------------------------------------------------------------------------
(* Decisions.                                                                *)

RECURSIVE Ancestors(_, _)
Ancestors(net, S) ==
  LET T == S \cup UNION {{net.par[v][i] : i \in 1..Len(net.par[v])} : v \in S}
  IN IF T = S THEN S ELSE Ancestors(net, T)

Precedes(net, d, e) == d # e /\ d \in Ancestors(net, {e})

ParSet(net, v) == {net.par[v][i] : i \in 1..Len(net.par[v])}

(* Decisions are totally ordered by the arcs, and each one knows what the    *)
(* earlier ones knew; earlier decisions themselves are always known.         *)
NoForgetting(net) ==
  \A d, e \in Decisions(net) : d # e =>
     /\ Precedes(net, d, e) \/ Precedes(net, e, d)
     /\ Precedes(net, d, e) => (ParSet(net, d) \cap Chance(net)) \subseteq ParSet(net, e)

DecisionOrder(net) ==
  LET D == Decisions(net)
  IN [i \in 1..Cardinality(D) |->
        CHOOSE d \in D : Cardinality({e \in D : Precedes(net, e, d)}) = i - 1]

Earlier(net, d) == {e \in Decisions(net) : Precedes(net, e, d)}
InfoSet(net, d) == (ParSet(net, d) \cap Chance(net)) \cup Earlier(net, d)

SeqOf(S) == LET f[T \in SUBSET S] == IF T = {} THEN << >>
                  ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN << m >> \o f[T \ {m}]
            IN f[S]

(* The order in which things become known: observations before the first     *)
(* decision, the first decision, what is newly observed, ... The variables   *)
(* never observed come last and are summed out by UMass.                     *)
RECURSIVE RevealFrom(_, _, _, _)
RevealFrom(net, ds, k, known) ==
  IF k > Len(ds) THEN << >>
  ELSE LET new == (ParSet(net, ds[k]) \cap Chance(net)) \ known
       IN SeqOf(new) \o << ds[k] >> \o RevealFrom(net, ds, k+1, known \cup new \cup {ds[k]})
Reveal(net) == RevealFrom(net, DecisionOrder(net), 1, {})

(* Value of a situation (fix gives the first k-1 revealed variables) when    *)
(* acting optimally from then on.                                            *)
RECURSIVE Value(_, _, _, _, _, _)
Value(net, M0, us, rev, k, fix) ==
  IF k > Len(rev) THEN UMass(M0, us, fix)
  ELSE LET v == rev[k]
           val == [o \in 1..net.card[v] |-> Value(net, M0, us, rev, k+1, [fix EXCEPT ![v] = o-1])]
       IN IF net.type[v] = "c" THEN RSum(val)
          ELSE LET f[i \in 1..net.card[v]] == IF i = 1 THEN val[1] ELSE RMax(f[i-1], val[i])
               IN f[net.card[v]]

MEU(net, M0, us) == Value(net, M0, us, Reveal(net), 1, Free(net))

PosOf(rev, d) == CHOOSE k \in 1..Len(rev) : rev[k] = d

(* Expected utilities of all options of decision d in one situation.         *)
OptionValues(net, M0, us, rev, d, fix) ==
  [o \in 1..net.card[d] |-> Value(net, M0, us, rev, PosOf(rev, d)+1, [fix EXCEPT ![d] = o-1])]

MaxOf(vals) ==
  LET f[i \in 1..Len(vals)] == IF i = 1 THEN vals[1] ELSE RMax(f[i-1], vals[i]) IN f[Len(vals)]

Best(vals, tol) ==
  LET m == MaxOf(vals) IN {o \in 1..Len(vals) : RLe(RSub(m, vals[o]), tol)}

PolicyRow(net, p, d, fix) ==
  LET r == Row(net.card, p.scope, fix) IN [o \in 1..net.card[d] |-> p.tab[r * net.card[d] + o]]

IsDistribution(row) ==
  /\ \A i \in 1..Len(row) : RIsNum(row[i]) /\ RLe("0", row[i]) /\ RLe(row[i], RAdd("1", Eps))
  /\ RClose(RSum(row), "1")

PowersOf2 == {1, 2, 4, 8, 16, 32}

(* Situations in which decision d is taken, as assignments.                  *)
Situations(net, rev, d) ==
  LET pre == SubSeq(rev, 1, PosOf(rev, d) - 1)
  IN [i \in 1..Size(net.card, pre) |-> Assign(net.card, pre, Free(net), i-1)]

(* One decision of a policy assignment is optimal. In networks whose tables  *)
(* and intermediate results are exact in floating point, exact says that     *)
(* ties are exact, too, and have to be shared equally.                       *)
WellFormedPolicy(net, p, d) ==
  /\ p.has
  /\ {p.scope[i] : i \in 1..Len(p.scope)} \subseteq InfoSet(net, d)
  /\ Cardinality({p.scope[i] : i \in 1..Len(p.scope)}) = Len(p.scope)
  /\ Len(p.tab) = Size(net.card, p.scope) * net.card[d]
  /\ \A r \in 0..(Size(net.card, p.scope) - 1) :
       IsDistribution([o \in 1..net.card[d] |-> p.tab[r * net.card[d] + o]])

SituationOk(net, M0, us, rev, p, d, fix, exact) ==
  \/ Mass(M0, fix) = "0"
  \/ LET vals == OptionValues(net, M0, us, rev, d, fix)
         row  == PolicyRow(net, p, d, fix)
         tol  == IF exact THEN "0" ELSE RMul(Eps, Magnitude(us))
         best == Best(vals, tol)
     IN /\ \A o \in 1..Len(row) : RLt("0", row[o]) => o \in best
        /\ (exact \/ Cardinality(best) = 1) =>
              \A o \in best : RClose(row[o], RDiv("1", RInt(Cardinality(best))))

TiesArePowersOf2(net, M0, us, rev, d) ==
  LET S == Situations(net, rev, d)
  IN \A i \in 1..Len(S) :
       Mass(M0, S[i]) # "0" =>
          Cardinality(Best(OptionValues(net, M0, us, rev, d, S[i]), "0")) \in PowersOf2

(* The decisions whose policies are not optimal.                             *)
BadPolicies(net, norm, order, pol, exact) ==
  LET M0  == Model(net, norm, order, NoPolicies(net), {})
      us  == TotalUtility(net)
      rev == Reveal(net)
      ds  == DecisionOrder(net)
      dy  == [k \in 1..Len(ds) |-> exact /\ TiesArePowersOf2(net, M0, us, rev, ds[k])]
  IN {k \in 1..Len(ds) :
        LET d == ds[k]
            S == Situations(net, rev, d)
            ex == exact /\ \A j \in (k+1)..Len(ds) : dy[j]
        IN \/ ~WellFormedPolicy(net, pol[d], d)
           \/ \E i \in 1..Len(S) : ~SituationOk(net, M0, us, rev, pol[d], d, S[i], ex)}
=============================================================================
