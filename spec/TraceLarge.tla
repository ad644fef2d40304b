----------------------------- MODULE TraceLarge -----------------------------
(* Validates operations on factors with many thousands of entries at the     *)
(* positions that were recorded.                                             *)
EXTENDS LargeTables, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l,
          pool,   \* factors as LargeTables has them
          verdict
vars == << sc, l, pool, verdict >>
H == Scenarios[sc]
Card == H.card

SetOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Joined(_, _)
Joined(fs, k) == IF k = 0 THEN {} ELSE Joined(fs, k-1) \cup SetOf(fs[k].scope)

Operands(e) == [i \in 1..Len(e.fs) |-> pool[e.fs[i]]]
ScopeOf(e) ==
  CASE e.op = "lrule" -> SetOf(e.vs)
    [] e.op \in {"restrict", "sumout"} -> SetOf(pool[e.fs[1]].scope) \ {e.v}
    [] OTHER -> Joined(Operands(e), Len(e.fs))

NewFactor(e) ==
  IF e.op = "lrule" THEN Rule(e.vs, e.a0, e.b0, e.m0) ELSE Made(e.op, e.res.fv, Operands(e), e.v, e.o)

(* Sums of integers are exact.                                               *)
Same(obs, exact, op) == IF op \in {"normfor", "policy"} THEN RClose(obs, exact) ELSE obs = exact

NewOk(e) ==
  LET r == e.res
      g == NewFactor(e)
  IN /\ r.st = "ok"
     /\ SetOf(r.fv) = ScopeOf(e) /\ Len(r.fv) = Cardinality(SetOf(r.fv))
     /\ e.op = "lrule" => r.fv = e.vs
     /\ e.op = "rearrange" => r.fv = e.vs
     /\ e.op = "normfor" => r.fv[Len(r.fv)] = e.v
     /\ r.len = Size(Card, r.fv)
     /\ \A i \in 1..Len(r.at) : Same(r.at[i][2], AtPosition(Card, g, r.fv, r.at[i][1]), e.op)

AsAssign(scope, t) ==
  [v \in 1..Len(Card) |-> LET I == {i \in 1..Len(t) : scope[i] = v}
                          IN IF I = {} THEN 0 ELSE t[CHOOSE i \in I : TRUE]]
Flat(f, t) == Row(Card, SubSeq(f.scope, 1, Len(t)), AsAssign(f.scope, t))
LastCard(f) == Card[f.scope[Len(f.scope)]]

LookOk(e) ==
  LET r == e.res
      f == pool[e.f]
  IN /\ r.st = "ok"
     /\ CASE e.op = "index"  -> r.i = Flat(f, e.a)
          [] e.op = "nodata" -> LET known == \A i \in 1..Len(e.a) : e.a[i] # -1
                                IN r.has = known /\ (known => r.i = Flat(f, e.a))
          [] e.op = "outcomes" -> Len(r.a) = Len(f.scope) /\ Flat(f, r.a) = e.i
                                  /\ \A i \in 1..Len(r.a) : r.a[i] \in 0..(Card[f.scope[i]] - 1)
          [] e.op = "rowindex" -> r.i = Flat(f, e.a) * LastCard(f) /\ r.n = LastCard(f)
          [] e.op = "row" -> /\ Len(r.row) = LastCard(f)
                             /\ \A k \in 1..Len(r.row) :
                                  r.row[k] = AtPosition(Card, f, f.scope, Flat(f, e.a) * LastCard(f) + k - 1)
          [] e.op = "get" -> r.x = AtPosition(Card, f, f.scope, Flat(f, e.a))
          [] OTHER -> FALSE
LookOps == {"index", "nodata", "outcomes", "rowindex", "row", "get"}

EventOk(e) == IF e.op \in LookOps THEN LookOk(e) ELSE NewOk(e)

Init == sc \in 1..Len(Scenarios) /\ l = 0 /\ pool = << >> /\ verdict = "on"

Step ==
  /\ verdict = "on" /\ l < Len(H.events)
  /\ LET e == H.events[l+1]
     IN IF EventOk(e)
        THEN /\ verdict' = "on"
             /\ pool' = IF e.op \in LookOps THEN pool ELSE Append(pool, NewFactor(e))
        ELSE /\ verdict' = "reject" /\ pool' = << >>
             /\ PrintT(<<"REJECT", H.id, l+1>>)
  /\ l' = l + 1
  /\ UNCHANGED sc

Finish ==
  /\ verdict = "on" /\ l = Len(H.events)
  /\ verdict' = "done" /\ PrintT(<<"DONE", H.id, l>>)
  /\ pool' = << >>
  /\ UNCHANGED << sc, l >>

Next == Step \/ Finish
=============================================================================
