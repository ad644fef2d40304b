---------------------------- MODULE TraceAlgebra ----------------------------
(* Validates recorded sequences of factor operations and direct uses of the  *)
(* elimination engine. The state is the pool of factors created so far, with *)
(* the values observed when they were created or set: operations must not    *)
(* change them, and each new one has to be the right function of its         *)
(* operands. Variables are numbered as in the scenario.                      *)
EXTENDS Inference, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l,
          pool,    \* sequence of [scope, tab, fid]
          ids,     \* identifiers of variables
          verdict
H == Scenarios[sc]
Card == H.card

AbsTotal(f) == RSum([i \in 1..Len(f.tab) |-> RAbs(f.tab[i])])
RECURSIVE SumAbs(_, _)
SumAbs(fs, k) == IF k = 0 THEN "0" ELSE RAdd(SumAbs(fs, k-1), AbsTotal(fs[k]))

ObsFactor(r) == [scope |-> r.fv, tab |-> r.fd, fid |-> r.fid]

WellFormed(r) ==
  /\ r.st = "ok"
  /\ \A i \in 1..Len(r.fv) : r.fv[i] \in 1..Len(Card)
  /\ Cardinality({r.fv[i] : i \in 1..Len(r.fv)}) = Len(r.fv)
  /\ Len(r.fd) = Size(Card, r.fv)

(* Same function up to rounding: relative to a value, or to a scale.         *)
Fits(obs, exact, scale) ==
  \/ exact = "any"
  \/ exact = "NaN" /\ obs = "NaN"
  \/ /\ exact # "NaN" /\ RIsNum(obs)
     /\ RLe(RAbs(RSub(obs, exact)), RAdd(Tiny, RMul(Eps, IF scale = "rel" THEN RAbs(exact) ELSE scale)))

IsFunction(r, f, scale) ==
  /\ WellFormed(r)
  /\ {r.fv[i] : i \in 1..Len(r.fv)} = ScopeSet(f)
  /\ LET g == FRearrange(Card, f, r.fv)
     IN \A i \in 1..Len(r.fd) : Fits(r.fd[i], g.tab[i], scale)

IsExactly(r, f, scale) == IsFunction(r, f, scale) /\ r.fv = f.scope

Operands(e) == [i \in 1..Len(e.fs) |-> pool[e.fs[i]]]

NewFactorOk(e) ==
  LET r == e.res
      f == pool[e.f]
  IN CASE e.op = "create"   -> /\ WellFormed(r) /\ r.fv = e.vs
                               /\ r.fd = IF e.nil THEN [i \in 1..Size(Card, e.vs) |-> "0"] ELSE e.d
       [] e.op = "restrict" -> IsFunction(r, FRestrict(Card, f, e.v, e.o), "0")
       [] e.op = "sumout"   -> IsFunction(r, FSumOut(Card, f, e.v), AbsTotal(f))
       [] e.op = "product"  -> IsFunction(r, FProduct(Card, Operands(e)), "rel")
       [] e.op = "sum"      -> IsFunction(r, FSum(Card, Operands(e)), SumAbs(Operands(e), Len(e.fs)))
       [] e.op = "marginal" -> IsFunction(r, FMarginal(Card, f, e.v), AbsTotal(f))
       [] e.op = "normalize" -> IsFunction(r, FNormalize(f), "rel")
       [] e.op = "normfor"  -> IsFunction(r, FNormalizeFor(Card, f, e.v), "rel") /\ r.fv[Len(r.fv)] = e.v
       [] e.op = "rearrange" -> IsExactly(r, FRearrange(Card, f, e.vs), "0")
       [] e.op = "policy"   -> IsFunction(r, FPolicy(Card, f, e.v), "rel")
       [] e.op = "invert"   -> IsFunction(r, FInvert(f), "rel")
       [] OTHER -> FALSE

NewOps == {"create", "restrict", "sumout", "product", "sum", "marginal", "normalize", "normfor", "rearrange", "policy", "invert"}

(* Assignment of a factor's scope given as a tuple.                          *)
AsAssign(scope, t) ==
  [v \in 1..Len(Card) |-> LET I == {i \in 1..Len(t) : scope[i] = v}
                          IN IF I = {} THEN -1 ELSE t[CHOOSE i \in I : TRUE]]
Flat(f, t) == Row(Card, SubSeq(f.scope, 1, Len(t)), AsAssign(f.scope, t))
LastCard(f) == Card[f.scope[Len(f.scope)]]

LookOk(e) ==
  LET r == e.res
      f == pool[e.f]
  IN /\ r.st = "ok"
     /\ CASE e.op = "index"  -> r.i = Flat(f, e.a)
          [] e.op = "nodata" -> LET known == \A i \in 1..Len(e.a) : e.a[i] # -1
                                IN r.has = known /\ (known => r.i = Flat(f, e.a))
          [] e.op = "outcomes" -> Len(r.a) = Len(f.scope) /\ Flat(f, r.a) = e.i
                                  /\ \A i \in 1..Len(r.a) : r.a[i] \in 0..(Card[f.scope[i]] - 1)
          [] e.op = "rowindex" -> r.i = Flat(f, e.a) * LastCard(f) /\ r.n = LastCard(f)
          [] e.op = "row" -> r.row = SubSeq(f.tab, Flat(f, e.a) * LastCard(f) + 1, (Flat(f, e.a) + 1) * LastCard(f))
          [] e.op = "get" -> r.x = f.tab[Flat(f, e.a) + 1]
          [] OTHER -> FALSE
LookOps == {"index", "nodata", "outcomes", "rowindex", "row", "get"}

PoolOk(e) ==
  /\ e.res.st = "ok"
  /\ Len(e.res.pool) = Len(pool)
  /\ \A i \in 1..Len(pool) : /\ e.res.pool[i].fv = pool[i].scope
                             /\ e.res.pool[i].fd = pool[i].tab
                             /\ e.res.pool[i].fid = pool[i].fid
  /\ \A i, k \in 1..Len(pool) : i # k => pool[i].fid # pool[k].fid

------------------------------------------------------------------------------
(* The elimination engine, used directly.                                    *)
EngineFix(e) ==
  TLCEval([v \in 1..Len(Card) |-> LET I == {i \in 1..Len(e.ev) : e.ev[i][1] = v}
                                  IN IF I = {} THEN -1 ELSE e.ev[CHOOSE i \in I : TRUE][2]])

IsU(v) == H.types[v] = "u"
UtilOf(f) == {v \in ScopeSet(f) : IsU(v)}
Probs(e) == SelectSeq(Operands(e), LAMBDA f : UtilOf(f) = {})
Utils(e) == SelectSeq(Operands(e), LAMBDA f : UtilOf(f) # {})

EngineJoint(fs, fix, scope) ==
  LET p == TLCEval([i \in 1..Len(fs) |-> RestrictAll(Card, [scope |-> fs[i].scope, tab |-> fs[i].tab], fix)])
      hidden == {v \in 1..Len(Card) : H.types[v] = "c" /\ fix[v] < 0} \ {scope[i] : i \in 1..Len(scope)}
  IN Collect(Card, EliminateAll(Card, p, hidden), scope).tab

EvSet(e) == {e.ev[i][1] : i \in 1..Len(e.ev)}
Asked(e) == {e.q[i] : i \in 1..Len(e.q)} \ EvSet(e)

EngineScopeOk(e, fv) ==
  LET S == {fv[i] : i \in 1..Len(fv)}
  IN S \cap EvSet(e) = {} /\ {v \in Asked(e) : H.types[v] = "c"} \subseteq S

EngineSolveOk(e) ==
  LET r == e.res
      x == EngineJoint(Probs(e), EngineFix(e), r.fv)
  IN /\ WellFormed(r) /\ EngineScopeOk(e, r.fv)
     /\ \A i \in 1..Len(r.fd) : Fits(r.fd[i], x[i], "rel")

(* Weights in the order of the utility variables.                            *)
UVars == SelectSeq([v \in 1..Len(Card) |-> v], LAMBDA v : IsU(v))
WeightFor(e, f) ==
  IF e.u # 0 \/ e.w = << >> THEN "1"
  ELSE LET u == CHOOSE v \in UtilOf(f) : TRUE
       IN e.w[CHOOSE i \in 1..Len(UVars) : UVars[i] = u]

EngineUtilityOk(e) ==
  LET r  == e.res
      fv == SelectSeq(r.fv, LAMBDA v : ~IsU(v))
      us == SelectSeq(Utils(e), LAMBDA f : e.u = 0 \/ e.u \in UtilOf(f))
      plain(f) == [scope |-> SelectSeq(f.scope, LAMBDA v : ~IsU(v)), tab |-> f.tab]  \* utilities have one outcome
      part == TLCEval([k \in 1..Len(us) |-> EngineJoint(Append(Probs(e), plain(us[k])), EngineFix(e), fv)])
      scale == RAdd("1", SumAbs(us, Len(us)))
  IN /\ WellFormed(r) /\ EngineScopeOk(e, fv)
     /\ \A i \in 1..Len(r.fd) :
          Fits(r.fd[i], RSum([k \in 1..Len(us) |-> RMul(WeightFor(e, us[k]), part[k][i])]), RMul(scale, "100"))

(* Policies solved by the engine; the scenario says which network it is.     *)
EnginePolicyOk(e) ==
  LET r == e.res
      net == H.net
      pol == TLCEval([d \in 1..net.n |->
               LET I == {i \in 1..Len(r.pol) : r.pol[i].d = d}
               IN IF I = {} THEN NoPolicy
                  ELSE LET p == r.pol[CHOOSE i \in I : TRUE]
                           g == FRearrange(net.card, [scope |-> p.fv, tab |-> p.fd], LastScope(p.fv, d))
                       IN [has |-> TRUE, scope |-> Without(p.fv, d), tab |-> g.tab]])
  IN /\ r.st = "ok"
     /\ \A i \in 1..Len(r.pol) :
          /\ r.pol[i].d \in {r.pol[i].fv[k] : k \in 1..Len(r.pol[i].fv)}
          /\ Len(r.pol[i].fd) = Size(net.card, r.pol[i].fv)
     /\ Cardinality({r.pol[i].d : i \in 1..Len(r.pol)}) = Len(r.pol)
     /\ LET bad == BadPolicies(net, TLCEval(NormTables(net)), TLCEval(Topo(net)), pol, H.exact)
            ds  == DecisionOrder(net)
        IN IF e.step  \* only the last one
           THEN Len(r.pol) = 1 /\ r.pol[1].d = ds[Len(ds)] /\ Len(ds) \notin bad
           ELSE Len(r.pol) = Len(ds) /\ bad = {}

------------------------------------------------------------------------------
EventOk(e) ==
  CASE e.op \in NewOps  -> NewFactorOk(e)
    [] e.op \in LookOps -> LookOk(e)
    [] e.op = "set"     -> e.res.st = "ok"
    [] e.op = "pool"    -> PoolOk(e)
    [] e.op = "addvar"  -> IF e.id \in ids THEN e.res.st # "ok" ELSE e.res.st = "ok"
    [] e.op = "vesolve" -> EngineSolveOk(e)
    [] e.op = "veutil"  -> EngineUtilityOk(e)
    [] e.op = "vepolicy" -> EnginePolicyOk(e)
    [] OTHER -> FALSE

AfterPool(e) ==
  IF e.op \in NewOps THEN Append(pool, ObsFactor(e.res))
  ELSE IF e.op = "set" THEN [pool EXCEPT ![e.f].tab[Flat(pool[e.f], e.a) + 1] = e.x]
  ELSE pool

Init == /\ sc \in 1..Len(Scenarios) /\ l = 0 /\ pool = << >> /\ verdict = "on"
        /\ ids = {Scenarios[sc].vars[i].id : i \in 1..Len(Scenarios[sc].vars)}

Step ==
  /\ verdict = "on" /\ l < Len(H.events)
  /\ LET e == H.events[l+1]
     IN IF EventOk(e)
        THEN /\ verdict' = "on" /\ pool' = AfterPool(e)
             /\ ids' = IF e.op = "addvar" THEN ids \cup {e.id} ELSE ids
        ELSE /\ verdict' = "reject" /\ pool' = << >> /\ UNCHANGED ids
             /\ PrintT(<<"REJECT", H.id, l+1>>)
  /\ l' = l + 1
  /\ UNCHANGED sc

Finish ==
  /\ verdict = "on" /\ l = Len(H.events)
  /\ verdict' = "done" /\ PrintT(<<"DONE", H.id, l>>)
  /\ pool' = << >>
  /\ UNCHANGED << sc, l, ids >>

Next == Step \/ Finish
=============================================================================
