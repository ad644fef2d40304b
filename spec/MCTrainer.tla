----------------------------- MODULE MCTrainer ------------------------------
(* Two trainers of one network: all interleavings of adding samples and      *)
(* updating. What was collected is described twice: by the sums and counts   *)
(* of module Trainer (which judge the code), and by the plain history of     *)
(* samples, over which the documented relative frequencies and means are     *)
(* stated directly. Updating goes through the nodes one by one; with         *)
(* Atomic = FALSE it writes each table at once, and TLC finds that a failing *)
(* update leaves a partially trained network.                                *)
EXTENDS Trainer

CONSTANTS Depth, Atomic, Samples

VARIABLES tr, hist, net, old, steps
vars == << tr, hist, net, old, steps >>

(* A chance variable, a decision, a child of both, and a utility of 1 and 3. *)
Start ==
  [n |-> 4, type |-> << "c", "d", "c", "u" >>, card |-> << 2, 1, 2, 1 >>, total |-> 0,
   par |-> << << >>, << >>, << 1, 2 >>, << 3 >> >>,
   tab |-> << << "1", "3" >>, << >>, << "1", "1", "1", "0" >>, << "5", "7" >> >>]

X(a, b, c, u) == [s |-> << a, b, c, -1 >>, us |-> << "NaN", "NaN", "NaN", u >>, unil |-> FALSE]
Some == {X(0, 0, 0, "2"), X(1, 0, 1, "-1"), X(1, -1, 0, "4"), X(-1, 0, 1, "NaN"), X(0, 0, 1, "1/2"), [X(1, 0, 0, "NaN") EXCEPT !.unil = TRUE]}
Few  == {X(0, 0, 0, "2"), X(1, 0, 1, "-1"), X(1, -1, 0, "4")}

Trainers == 1..2

Init == /\ net = Start /\ old = Start /\ steps = 0
        /\ tr = [t \in Trainers |-> NewTrainer(Start)]
        /\ hist = [t \in Trainers |-> << >>]

Add(t, x) == /\ tr' = [tr EXCEPT ![t] = AddSamples(Start, tr[t], << x >>)]
             /\ hist' = [hist EXCEPT ![t] = Append(@, x)]
             /\ UNCHANGED << net, old >>

NodeReady(t, v) == \A r \in 1..Len(tr[t][v].cnt) : tr[t][v].cnt[r] > 0
(* Tables after writing node by node up to the first one that fails.         *)
Partial(t) == [v \in Vars(net) |->
                 IF TrainedNode(net, v) /\ \A w \in 1..v : TrainedNode(net, w) => NodeReady(t, w)
                 THEN TLCEval([i \in 1..Len(tr[t][v].sum) |->
                        RDiv(tr[t][v].sum[i], RInt(tr[t][v].cnt[((i-1) \div net.card[v]) + 1]))])
                 ELSE net.tab[v]]

Update(t) == /\ old' = net
             /\ net' = IF Trainable(net, tr[t]) THEN [net EXCEPT !.tab = Trained(net, tr[t])]
                       ELSE IF Atomic THEN net ELSE [net EXCEPT !.tab = Partial(t)]
             /\ UNCHANGED << tr, hist >>

Next == /\ steps < Depth /\ steps' = steps + 1
        /\ \E t \in Trainers : Update(t) \/ \E x \in Samples : Add(t, x)

------------------------------------------------------------------------------
(* The documentation: relative frequencies and means over the samples that   *)
(* know the value and all parents.                                           *)
Matches(x, v, row) ==
  /\ \A i \in 1..Len(Start.par[v]) : x.s[Start.par[v][i]] >= 0
  /\ Row(Start.card, Start.par[v], x.s) = row
  /\ IF Start.type[v] = "u" THEN ~x.unil /\ x.us[v] # "NaN" ELSE x.s[v] >= 0
Matching(t, v, row) == SelectSeq(hist[t], LAMBDA x : Matches(x, v, row))
Expected(t, v, row, o) ==
  LET xs == Matching(t, v, row)
      hit == SelectSeq(xs, LAMBDA x : x.s[v] = o)
  IN IF Start.type[v] = "u" THEN RDiv(RSum([i \in 1..Len(xs) |-> xs[i].us[v]]), RInt(Len(xs)))
     ELSE RDiv(RInt(Len(hit)), RInt(Len(xs)))

Enough(t) == \A v \in {1, 3, 4} : \A r \in 0..(RowsOf(Start, v) - 1) : Matching(t, v, r) # << >>

Documented(t) ==
  /\ Trainable(Start, tr[t]) = Enough(t)
  /\ Enough(t) => \A v \in {1, 3, 4} : \A r \in 0..(RowsOf(Start, v) - 1) : \A o \in 0..(Start.card[v] - 1) :
        Trained(Start, tr[t])[v][r * Start.card[v] + o + 1] = Expected(t, v, r, o)
Exact == \A t \in Trainers : Documented(t)

(* The network is as it was, or as one of the trainers makes it now or made  *)
(* it before; in particular it is never partially trained.                   *)
Whole == [][net' # net => \E t \in Trainers : Enough(t) /\ net'.tab = Trained(net, tr[t])]_vars
Others == net.tab[2] = << >> /\ net.par = Start.par /\ net.type = Start.type
(* Updating again changes nothing. *)
Repeatable == \A t \in Trainers : Enough(t) => LET n1 == [net EXCEPT !.tab = Trained(net, tr[t])] IN Trained(n1, tr[t]) = n1.tab
=============================================================================
