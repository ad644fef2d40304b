--------------------------- MODULE TraceRelation ----------------------------
(* Validates pairs of sessions on two descriptions of the same network. The  *)
(* second description names, orders and scales things differently: vmap maps *)
(* variables of the first to variables of the second one, omap[v] outcomes.  *)
(* Results have to be related by the same maps. No reference values are      *)
(* involved, so networks can be of any size.                                 *)
EXTENDS FactorAlgebra, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l, verdict
H == Scenarios[sc]

(* Two floats that should be the same number. *)
Alike(x, y) ==
  \/ x = y
  \/ /\ RIsNum(x) /\ RIsNum(y)
     /\ RLe(RAbs(RSub(x, y)), RAdd(RMul(Eps, RAbs(x)), Tiny))
AlikeTo(x, y, scale) ==
  x = y \/ (RIsNum(x) /\ RIsNum(y) /\ RLe(RAbs(RSub(x, y)), RMul(Eps, scale)))

MapVar(h, v) == h.vmap[v]
MapOut(h, v, o) == h.omap[v][o+1]

RowAlike(h, v, a, b) ==
  /\ Len(a) = h.card[v] /\ Len(b) = h.card[v]
  /\ \A o \in 0..(h.card[v]-1) : Alike(a[o+1], b[MapOut(h, v, o)+1])

QueryAlike(h, e) ==
  /\ Len(e.ra.marg) = Len(e.qa) /\ Len(e.rb.marg) = Len(e.qb)
  /\ \A i \in 1..Len(e.qa) :
       \A j \in 1..Len(e.qb) :
         e.qb[j] = MapVar(h, e.qa[i]) => RowAlike(h, e.qa[i], e.ra.marg[i], e.rb.marg[j])

(* Factors are compared as functions. Their scopes may contain different     *)
(* extra variables only where decisions have not been solved.                *)
Magn(t) == RSum([i \in 1..Len(t) |-> IF RIsNum(t[i]) THEN RAbs(t[i]) ELSE "0"])

FactorAlike(h, fa, da, fb, db, scale0) ==
  LET cardb == h.cardb
      same  == {MapVar(h, fa[i]) : i \in 1..Len(fa)} = {fb[i] : i \in 1..Len(fb)}
      none  == None(cardb)
      scale == RAdd(scale0, Magn(da))
      img(a) == [w \in 1..Len(cardb) |->
                  LET I == {i \in 1..Len(fa) : MapVar(h, fa[i]) = w}
                  IN IF I = {} THEN -1 ELSE LET v == fa[CHOOSE i \in I : TRUE] IN MapOut(h, v, a[v])]
  IN (h.solved \/ same) =>
       /\ same
       /\ Len(da) = Size(h.card, fa) /\ Len(db) = Len(da)
       /\ \A i \in 1..Len(da) :
            AlikeTo(da[i], db[Row(cardb, fb, TLCEval(img(Assign(h.card, fa, None(h.card), i-1)))) + 1], scale)

EventAlike(h, e) ==
  /\ e.ra.st = e.rb.st
  /\ e.ra.st = "ok" =>
       CASE e.op = "query"   -> QueryAlike(h, e) /\ FactorAlike(h, e.ra.fv, e.ra.fd, e.rb.fv, e.rb.fd, "0")
         [] e.op = "utility" -> FactorAlike(h, e.ra.fv, e.ra.fd, e.rb.fv, e.rb.fd, "1")
         [] e.op = "policies" -> Len(e.ra.pol) = Len(e.rb.pol)
         [] OTHER -> TRUE

Init == sc \in 1..Len(Scenarios) /\ l = 0 /\ verdict = "on"

Step ==
  /\ verdict = "on" /\ l < Len(H.events)
  /\ IF EventAlike(H, H.events[l+1]) THEN verdict' = "on"
     ELSE verdict' = "reject" /\ PrintT(<<"REJECT", H.id, l+1>>)
  /\ l' = l + 1
  /\ UNCHANGED sc

Finish ==
  /\ verdict = "on" /\ l = Len(H.events)
  /\ verdict' = "done" /\ PrintT(<<"DONE", H.id, l>>)
  /\ UNCHANGED << sc, l >>

Next == Step \/ Finish
=============================================================================
