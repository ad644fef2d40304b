------------------------------ MODULE Trainer -------------------------------
(* Training: counts per table row. A trainer is a sequence of nodes, each    *)
(* with the sums per table entry and the number of samples per row.          *)
EXTENDS Semantics

TrainedNode(net, v) == net.type[v] # "d" /\ v # net.total

RowsOf(net, v) == Size(net.card, net.par[v])

NewTrainer(net) ==
  TLCEval([v \in Vars(net) |->
     [sum |-> TLCEval([i \in 1..(RowsOf(net, v) * net.card[v]) |-> "0"]),
      cnt |-> TLCEval([r \in 1..RowsOf(net, v) |-> 0])]])

(* A sample has an outcome s per variable (-1: unknown), and a utility us    *)
(* per variable ("NaN": unknown); unil: there are no utilities at all. The   *)
(* same sample may be added several times.                                   *)
Times(x) == IF "rep" \in DOMAIN x THEN x.rep ELSE 1
AddToNode(net, v, node, x) ==
  LET known == \A i \in 1..Len(net.par[v]) : x.s[net.par[v][i]] >= 0
      row   == Row(net.card, net.par[v], x.s)
      util  == net.type[v] = "u"
      skip  == \/ ~TrainedNode(net, v)
               \/ ~known
               \/ util /\ (x.unil \/ x.us[v] = "NaN")
               \/ ~util /\ x.s[v] < 0
      entry == IF util THEN row * net.card[v] + 1 ELSE row * net.card[v] + x.s[v] + 1
      add   == IF util THEN x.us[v] ELSE "1"
  IN IF skip THEN node
     ELSE [sum |-> [node.sum EXCEPT ![entry] = RAdd(@, RMul(RInt(Times(x)), add))],
           cnt |-> [node.cnt EXCEPT ![row + 1] = @ + Times(x)]]

RECURSIVE AddAllToNode(_, _, _, _, _)
AddAllToNode(net, v, node, xs, k) ==
  IF k > Len(xs) THEN node ELSE AddAllToNode(net, v, TLCEval(AddToNode(net, v, node, xs[k])), xs, k+1)

AddSamples(net, t, xs) == [v \in Vars(net) |-> AddAllToNode(net, v, t[v], xs, 1)]

Trainable(net, t) ==
  \A v \in Vars(net) : TrainedNode(net, v) => \A r \in 1..Len(t[v].cnt) : t[v].cnt[r] > 0

Trained(net, t) ==
  [v \in Vars(net) |->
     IF ~TrainedNode(net, v) THEN net.tab[v]
     ELSE TLCEval([i \in 1..Len(t[v].sum) |->
            RDiv(t[v].sum[i], RInt(t[v].cnt[((i-1) \div net.card[v]) + 1]))])]
=============================================================================
