---------------------------- MODULE LargeTables -----------------------------
(* Factors with more entries than can be written down: the first ones are    *)
(* given by a rule, and the others by what they were made from. Only the     *)
(* values at single assignments are worked out. Values are integers, or      *)
(* rationals after divisions.                                                *)
EXTENDS Rat, Radix, FiniteSets, TLC

(* A factor is a record                                                      *)
(*   op     "rule", or the operation that made it                            *)
(*   scope  its variables, in the order of the table                         *)
(*   f, fs  what it was made from; v, o arguments; a, b, m the rule          *)
Rule(scope, a, b, m) ==
  [op |-> "rule", scope |-> scope, f |-> << >>, v |-> 0, o |-> 0, a |-> a, b |-> b, m |-> m]
Made(op, scope, fs, v, o) ==
  [op |-> op, scope |-> scope, f |-> fs, v |-> v, o |-> o, a |-> 0, b |-> 0, m |-> 1]

RECURSIVE RProdAll(_, _)
RProdAll(s, k) == IF k = 0 THEN "1" ELSE RMul(RProdAll(s, k-1), s[k])

RECURSIVE Val(_, _, _)
(* All values of one variable, the others as in an assignment.               *)
Along(card, f, x, v) == TLCEval([o \in 1..card[v] |-> Val(card, f, [x EXCEPT ![v] = o-1])])

Val(card, g, x) ==
  LET one == g.f[1]
      all == TLCEval([i \in 1..Len(g.f) |-> Val(card, g.f[i], x)])
  IN CASE g.op = "rule"      -> RInt((Row(card, g.scope, x) * g.a + g.b) % g.m)
       [] g.op = "restrict"  -> Val(card, one, [x EXCEPT ![g.v] = g.o])
       [] g.op = "sumout"    -> RSum(Along(card, one, x, g.v))
       [] g.op = "product"   -> RProdAll(all, Len(all))
       [] g.op = "sum"       -> RSum(all)
       [] g.op = "rearrange" -> Val(card, one, x)
       [] g.op = "normfor"   -> LET s == RSum(Along(card, one, x, g.v))
                                IN IF s = "0" THEN all[1] ELSE RDiv(all[1], s)
       [] g.op = "policy"    -> LET row == Along(card, one, x, g.v)
                                    best == {o \in 1..card[g.v] : \A k \in 1..card[g.v] : RLe(row[k], row[o])}
                                IN IF x[g.v] + 1 \in best THEN RDiv("1", RInt(Cardinality(best))) ELSE "0"

(* The value at a position of a table in the order of a scope.               *)
AtPosition(card, g, scope, i) == Val(card, g, Assign(card, scope, [v \in 1..Len(card) |-> 0], i))
=============================================================================
