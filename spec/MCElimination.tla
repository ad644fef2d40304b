--------------------------- MODULE MCElimination ----------------------------
(* Variable elimination as a state machine: from the pool of the factors of  *)
(* a network, restricted to the evidence, hidden variables are summed out    *)
(* one by one, in any order. In every state of every order, what is left     *)
(* means the same: multiplied, and summed over the hidden variables that     *)
(* remain, it is the joint table that Semantics defines by enumeration.      *)
(* For all networks with N variables up to the order of declaration, all     *)
(* evidence and all queries.                                                 *)
EXTENDS Inference

CONSTANTS N, Cards, Salts
\* FALSE is a wrong design: the variable is summed out of each factor on its own.
CONSTANT MultiplyFirst

SmallCards == {<< 2, 2, 2 >>, << 3, 2, 1 >>}
MoreCards  == {<< 2, 2, 2, 2 >>}

VARIABLES net, fix, scope, pool, hidden
vars == << net, fix, scope, pool, hidden >>

(* Tables with zeros and rows that are not normalised. *)
Entry(v, i, salt) == RInt((i * i + 2 * i + 3 * v + salt) % 4)

Pars == [1..N -> SUBSET (1..N)]
Net(par, card, salt) ==
  LET ps == [v \in 1..N |-> SeqOf(par[v])]
  IN [n |-> N, type |-> [v \in 1..N |-> "c"], card |-> card, total |-> 0, par |-> ps,
      tab |-> [v \in 1..N |-> TLCEval([i \in 1..(Size(card, ps[v]) * card[v]) |-> Entry(v, i, salt)])]]

ModelOf(x) == Model(x, NormTables(x), Topo(x), NoPolicies(x), {})

SeparateSums(card, p, v) ==
  [k \in 1..Len(p) |-> IF v \in ScopeSet(p[k]) THEN FSumOut(card, p[k], v) ELSE p[k]]

Init ==
  \E par \in {p \in Pars : \A v \in 1..N : p[v] \subseteq 1..(v-1)}, card \in Cards, salt \in Salts :
    /\ net = Net(par, card, salt)
    /\ fix \in {f \in [1..N -> -1..3] : \A v \in 1..N : f[v] < card[v]}
    /\ \E q \in SUBSET {v \in 1..N : fix[v] < 0} : scope = SeqOf(q)
    /\ pool = Pool(ModelOf(net), fix)
    /\ hidden = HiddenVars(ModelOf(net), fix, scope)

Next == \E v \in hidden :
          /\ pool' = IF MultiplyFirst THEN EliminateVar(net.card, pool, v) ELSE SeparateSums(net.card, pool, v)
          /\ hidden' = hidden \ {v}
          /\ UNCHANGED << net, fix, scope >>

Exact == EnumJoint(ModelOf(net), fix, scope)

(* Sum over the hidden variables of the product of the pool. *)
RECURSIVE OutAll(_, _, _)
OutAll(card, f, vs) ==
  IF vs = << >> THEN f
  ELSE OutAll(card, IF Head(vs) \in ScopeSet(f) THEN FSumOut(card, f, Head(vs)) ELSE f, Tail(vs))
Meaning == Tabulate(net.card, scope,
             LAMBDA a : At(net.card, OutAll(net.card, FProduct(net.card, pool), SeqOf(hidden)), a))

KeepsMeaning == Meaning.tab = Exact
Finds == hidden = {} => Collect(net.card, pool, scope).tab = Exact
(* The reference for large networks. *)
Reference == ElimJoint(ModelOf(net), fix, scope) = Exact
=============================================================================
