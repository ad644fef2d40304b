------------------------------ MODULE Display -------------------------------
(* What the tools show for a network: after its policies have been solved,   *)
(* the posterior of each chance and decision variable, the expected utility  *)
(* of each utility node next to the total, and for the total-utility node    *)
(* the weighted utilities of its parents and their total.                    *)
EXTENDS Session

(* The policies that maximise expected utility, sharing ties equally. They   *)
(* are unique in all information states that can occur, and uniform in       *)
(* others. For networks that are exact in floating point.                    *)
OptimalPolicies(net, norm, order) ==
  LET M0  == TLCEval(Model(net, norm, order, NoPolicies(net), {}))
      us  == TLCEval(TotalUtility(net))
      rev == TLCEval(Reveal(net))
      row(d, fix) ==
        LET vals == TLCEval(OptionValues(net, M0, us, rev, d, fix))
            best == IF Mass(M0, fix) = "0" THEN 1..net.card[d] ELSE Best(vals, "0")
        IN TLCEval([o \in 1..net.card[d] |-> IF o \in best THEN RDiv("1", RInt(Cardinality(best))) ELSE "0"])
      rows(d) == LET S == Situations(net, rev, d) IN TLCEval([i \in 1..Len(S) |-> row(d, S[i])])
      pol(d)  == LET R == rows(d)
                     k == net.card[d]
                 IN [has |-> TRUE, scope |-> SubSeq(rev, 1, PosOf(rev, d) - 1),
                     tab |-> TLCEval([i \in 1..(Len(R) * k) |-> R[((i-1) \div k) + 1][((i-1) % k) + 1]])]
  IN [v \in Vars(net) |-> IF v \in Decisions(net) THEN TLCEval(pol(v)) ELSE NoPolicy]

Solved(s) == [s EXCEPT !.pol = TLCEval(OptimalPolicies(s.net, s.norm, s.order))]

NaNs(k) == [i \in 1..k |-> "NaN"]

(* The values shown for evidence ev (pairs of variable and outcome). ign:    *)
(* policies of decisions with evidence are ignored.                          *)
Shown(s, ev, ign) ==
  LET net == s.net
      e   == [ev |-> ev, ign |-> ign]
      M   == ModelOf(s, e)
      fix == TLCEval(Fix(net, ev))
      p   == Mass(M, fix)
      own == TLCEval([v \in Vars(net) |-> IF v \in Utilities(net) /\ p # "0" THEN RDiv(UMass(M, SingleUtility(net, v), fix), p) ELSE "0"])
      tot == IF p = "0" \/ Utilities(net) = {} THEN "0" ELSE RDiv(UMass(M, TotalUtility(net), fix), p)
      ps  == IF net.total = 0 THEN << >> ELSE net.par[net.total]
      of(v) ==
        CASE fix[v] >= 0 -> OneHot(net.card[v], fix[v])
          [] v = net.total -> IF p = "0" THEN NaNs(Len(ps) + 1)
                              ELSE Append([i \in 1..Len(ps) |-> RMul(net.tab[v][i], own[ps[i]])], tot)
          [] v \in Utilities(net) -> IF p = "0" THEN NaNs(2) ELSE << own[v], tot >>
          [] OTHER -> IF p = "0" THEN NaNs(net.card[v]) ELSE Posterior(M, fix, v)
  IN [v \in Vars(net) |-> TLCEval(of(v))]

(* A numeral with three decimals shows a number, up to rounding.             *)
Rounded(text, x, scale) ==
  LET y == RParse(text)
  IN /\ RIsNum(y)
     /\ RDecimals(text) = 3
     /\ RLe(RAbs(RSub(y, x)), RAdd("501/1000000", RMul(Eps, RAbs(scale))))

HowLarge(net) == TLCEval(Magnitude(TotalUtility(net)))
=============================================================================
