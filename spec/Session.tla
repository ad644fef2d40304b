------------------------------ MODULE Session -------------------------------
(* One network in use: the state of the library as far as users can tell,    *)
(* and what each call may answer in that state.                              *)
(*                                                                           *)
(* The state s of a session is a record                                      *)
(*   net    the network (see Semantics); net.tab are the current tables      *)
(*   ftab   the same tables, as exact values of floating point numbers       *)
(*   norm   normalised tables, order  topological order (derived from net)   *)
(*   pol    policies in force                                                *)
(*   trn    trainers: what each of them has collected                        *)
(* A call event e has the operation e.op and its arguments, e.res is what    *)
(* the code answered. XOk(s, e) says which answers are right; Next states    *)
(* are defined by After(s, e). j (judge) selects the aspects of interest.    *)
EXTENDS Inference, Trainer

Close(obs, exact) ==
  /\ RIsNum(obs)
  /\ RLe(RAbs(RSub(obs, exact)), RAdd(RMul(Eps, RAbs(exact)), Tiny))

AllClose(obs, exact) ==
  /\ Len(obs) = Len(exact)
  /\ \A i \in 1..Len(obs) : Close(obs[i], exact[i])

AllCloseTo(obs, exact, scale) ==
  /\ Len(obs) = Len(exact)
  /\ \A i \in 1..Len(obs) : RCloseTo(obs[i], exact[i], scale)

Start(net, ftab) ==
  LET norm == TLCEval(NormTables(net))
  IN [net |-> net, ftab |-> ftab, norm |-> norm, order |-> TLCEval(Topo(net)),
      pol |-> NoPolicies(net), trn |-> << >>]

OneHot(k, o) == [i \in 1..k |-> IF i = o+1 THEN "1" ELSE "0"]

EvVars(e) == {e.ev[i][1] : i \in 1..Len(e.ev)}
Dropped(s, e) == IF e.ign THEN EvVars(e) \cap Decisions(s.net) ELSE {}
ModelOf(s, e) == TLCEval(Model(s.net, s.norm, s.order, s.pol, Dropped(s, e)))

(* Decisions that nothing has been decided about.                            *)
Undecided(s, e) ==
  {d \in Decisions(s.net) : ~s.pol[d].has \/ d \in Dropped(s, e)} \ EvVars(e)

Queried(e) == {e.q[i] : i \in 1..Len(e.q)} \ EvVars(e)

(* The scope of a result. It may contain more than what was asked for.       *)
ScopeOk(s, e, fv) ==
  LET S == {fv[i] : i \in 1..Len(fv)}
  IN /\ Cardinality(S) = Len(fv)
     /\ S \subseteq Random(s.net) \ EvVars(e)
     /\ (Queried(e) \ Undecided(s, e)) \subseteq S

(* Undecided decisions outside of the scope do not matter; they are fixed to *)
(* their first option instead of being summed over.                          *)
FixFor(s, e, fv) ==
  LET fix == Fix(s.net, e.ev)
      out == Undecided(s, e) \ {fv[i] : i \in 1..Len(fv)}
  IN TLCEval([v \in Vars(s.net) |-> IF v \in out THEN 0 ELSE fix[v]])

FactorOk(s, e, M, big, fv, fd) ==
  /\ ScopeOk(s, e, fv)
  /\ AllClose(fd, Joint(M, FixFor(s, e, fv), fv, big))

IsNaNs(row, k) == Len(row) = k /\ \A i \in 1..k : row[i] = "NaN"

(* Answers to a query.                                                       *)
QueryOk(s, e, j, big) ==
  LET r   == e.res
      M   == ModelOf(s, e)
      fix == TLCEval(Fix(s.net, e.ev))
      qs  == SeqOf(Queried(e))
      jnt == Joint(M, fix, qs, big)
      possible == RSum(jnt) # "0"
      card(v) == s.net.card[v]
  IN /\ r.st = "ok"
     /\ Len(r.marg) = Len(e.q)
     /\ \A i \in 1..Len(e.q) :
          LET v == e.q[i]
              m == r.marg[i]
          IN IF v \in EvVars(e)
             THEN (j.marg \/ j.dist) => m = OneHot(card(v), fix[v])
             ELSE /\ (j.marg /\ possible) => AllClose(m, Normalised(MarginalOf(M, jnt, qs, v)))
                  /\ (j.dist /\ possible) => Len(m) = card(v) /\ IsDistribution(m)
                  /\ (j.nan /\ ~possible) => IsNaNs(m, card(v))
     /\ j.marg => r.keys = Cardinality({e.q[i] : i \in 1..Len(e.q)})
     /\ j.fac => FactorOk(s, e, M, big, r.fv, r.fd)

UsOf(s, e) == TLCEval(IF e.u = 0 THEN TotalUtility(s.net) ELSE SingleUtility(s.net, e.u))

(* Scopes of single utilities contain the utility itself.                    *)
UScope(e, fv) == SelectSeq(fv, LAMBDA v : v # e.u)

UtilityOk(s, e, j, big) ==
  LET r  == e.res
      M  == ModelOf(s, e)
      us == UsOf(s, e)
      fv == UScope(e, r.fv)
      fx == FixFor(s, e, fv)
      scale == RMul(RSum(Joint(M, fx, << >>, big)), Magnitude(us))
  IN /\ r.st = "ok"
     /\ j.util => /\ ScopeOk(s, e, fv)
                  /\ AllCloseTo(r.fd, UJoint(M, us, fx, fv, big), scale)

(* Conditional expected utilities: NormalizeUtility of the results of a      *)
(* utility and a probability query. Nothing is said where the condition is   *)
(* impossible. m and mn are Marginal and Normalize of the probabilities.     *)
NormUtilOk(s, e, j, big) ==
  LET r  == e.res
      M  == ModelOf(s, e)
      us == UsOf(s, e)
      fv == UScope(e, r.fv)
      fx == FixFor(s, e, fv)
      p  == Joint(M, fx, fv, big)
      u  == UJoint(M, us, fx, fv, big)
      scale == Magnitude(us)
      q  == e.q[1]
      m  == MarginalOf(M, Joint(M, FixFor(s, e, r.pv), r.pv, big), r.pv, q)
  IN /\ r.st = "ok"
     /\ j.pure => r.pure
     /\ j.util =>
          /\ ScopeOk(s, e, fv)
          /\ Len(r.fd) = Len(p)
          /\ \A i \in 1..Len(p) : p[i] # "0" => RCloseTo(r.fd[i], RDiv(u[i], p[i]), scale)
     /\ (j.marg /\ Len(e.q) > 0 /\ q \in {r.pv[i] : i \in 1..Len(r.pv)}) =>
          /\ ScopeOk(s, e, r.pv)
          /\ AllClose(r.m, m)
          /\ RSum(m) # "0" => AllClose(r.mn, Normalised(m))

(* Policies.                                                                 *)
PolicyOf(net, r) ==
  [d \in Vars(net) |->
     LET I == {i \in 1..Len(r.pol) : r.pol[i].d = d}
     IN IF I = {} THEN NoPolicy
        ELSE LET p == r.pol[CHOOSE i \in I : TRUE]
             IN [has |-> TRUE, scope |-> p.scope, tab |-> p.tab]]

PoliciesUsable(s, r) ==
  /\ r.st = "ok"
  /\ \A d \in Decisions(s.net) :
       LET p == PolicyOf(s.net, r)[d]
       IN /\ p.has
          /\ {p.scope[i] : i \in 1..Len(p.scope)} \subseteq InfoSet(s.net, d)
          /\ Len(p.tab) = Size(s.net.card, p.scope) * s.net.card[d]
          /\ \A i \in 1..Len(p.tab) : RIsNum(p.tab[i])

PoliciesOk(s, e, j) ==
  LET r == e.res
      pol == TLCEval(PolicyOf(s.net, r))
  IN j.pol =>
       /\ r.st = "ok"
       /\ r.count = Cardinality(Decisions(s.net))
       /\ Len(r.pol) = r.count
       /\ \A i \in 1..Len(r.pol) : r.pol[i].for = r.pol[i].d
       /\ BadPolicies(s.net, s.norm, s.order, pol, j.exact) = {}

(* Attributes of the network, and of its saved form (by the library and by   *)
(* an independent reader).                                                   *)
DumpIs(h, ftab, d) ==
  /\ d.name = h.name /\ d.info = h.info
  /\ d.names = h.names /\ d.type = h.type /\ d.outs = h.outs
  /\ d.pos = h.pos /\ d.colors = h.colors
  /\ d.given = [v \in 1..h.n |-> [i \in 1..Len(h.par[v]) |-> h.names[h.par[v][i]]]]
  /\ d.tab = ftab

SaveOk(s, e, j) ==
  LET r == e.res
  IN j.save =>
       /\ r.st = "ok"
       /\ DumpIs(s.net, s.ftab, r) /\ r.total = s.net.total
       /\ r.same
       /\ r.doc.st = "ok" /\ DumpIs(s.net, s.ftab, r.doc)

DumpOk(s, e, j) ==
  LET r == e.res IN j.dump => r.st = "ok" /\ DumpIs(s.net, s.ftab, r) /\ r.total = s.net.total

(* Rows of a table by parent outcomes; -1 is missing data.                   *)
RowOk(s, e, j) ==
  LET r == e.res
      v == e.v
      a == [w \in Vars(s.net) |-> LET I == {i \in 1..Len(e.index) : s.net.par[v][i] = w}
                                  IN IF I = {} THEN -1 ELSE e.index[CHOOSE i \in I : TRUE]]
      known == \A i \in 1..Len(e.index) : e.index[i] >= 0
      from == Row(s.net.card, s.net.par[v], a) * s.net.card[v]
  IN j.row => /\ r.st = "ok"
              /\ r.has = known
              /\ known => r.row = SubSeq(s.ftab[v], from + 1, from + s.net.card[v])

(* What a result looked like when it was handed out is what it still is.     *)
RecheckOk(e, old, j) ==
  LET r == e.res
  IN (j.recheck /\ old.res.st = "ok") =>
       CASE old.op = "query"    -> r.st = "ok" /\ r.marg = old.res.marg /\ r.fd = old.res.fd
         [] old.op = "utility"  -> r.st = "ok" /\ r.fd = old.res.fd
         [] old.op = "policies" -> r.st = "ok" /\ r.pol = old.res.pol
         [] old.op = "toev"     -> r.st = "ok" /\ r.p = old.res.p
         [] OTHER               -> TRUE

(* Training. *)
UpdateOk(s, e, j) ==
  LET r == e.res
  IN j.train =>
       IF Trainable(s.net, s.trn[e.t])
       THEN /\ r.st = "ok" /\ r.same
            /\ LET tab == Trained(s.net, s.trn[e.t])
               IN /\ Len(r.tab) = s.net.n
                  /\ \A v \in Vars(s.net) :
                       IF TrainedNode(s.net, v)
                       THEN AllCloseTo(r.tab[v], tab[v], RAdd("1", RSum([i \in 1..Len(tab[v]) |-> RAbs(tab[v][i])])))
                       ELSE r.tab[v] = s.ftab[v]
       ELSE r.st = "err"

(* Calls with arguments that may be wrong: names of variables and outcomes   *)
(* in place of their numbers. They fit if they name chance or decision       *)
(* variables, outcomes of these, and a utility.                              *)
Named(net, x) == \E v \in Vars(net) : net.names[v] = x /\ net.type[v] # "u"
HasOutcome(net, x, o) ==
  \E v \in Vars(net) : net.names[v] = x /\ net.type[v] # "u" /\ \E k \in 1..Len(net.outs[v]) : net.outs[v][k] = o
RawFits(net, e) ==
  IF e.op = "rawtoev" THEN HasOutcome(net, e.qs[1], e.qs[2])
  ELSE /\ \A x \in DOMAIN e.evs : HasOutcome(net, x, e.evs[x])
       /\ \A i \in 1..Len(e.qs) : Named(net, e.qs[i])
       /\ e.op = "rawutility" =>
            \/ e.uname = ""
            \/ \E u \in Utilities(net) : net.names[u] = e.uname

Ok(s, e, events, j, big) ==
  CASE e.op = "load"     -> e.res.st = "ok"
    [] e.op = "query"    -> QueryOk(s, e, j, big)
    [] e.op = "utility"  -> UtilityOk(s, e, j, big)
    [] e.op = "normutil" -> NormUtilOk(s, e, j, big)
    [] e.op = "policies" -> PoliciesOk(s, e, j)
    [] e.op = "toev"     -> j.marg => e.res.st = "ok" /\ e.res.p = OneHot(s.net.card[e.v], e.o)
    [] e.op = "rawquery" \/ e.op = "rawutility" \/ e.op = "rawtoev" ->
         j.bad => e.res.st = (IF RawFits(s.net, e) THEN "ok" ELSE "err")
    [] e.op = "dump"     -> DumpOk(s, e, j)
    [] e.op = "row"      -> RowOk(s, e, j)
    [] e.op = "save"     -> SaveOk(s, e, j)
    [] e.op = "reload"   -> e.res.st = "ok"
    [] e.op = "scribble" -> TRUE
    [] e.op = "recheck"  -> RecheckOk(e, events[e.k], j)
    [] e.op = "trainer"  -> j.train => e.res.st = "ok"
    [] e.op = "sample"   -> j.train => e.res.st = "ok"
    [] e.op = "update"   -> UpdateOk(s, e, j)
    [] OTHER -> FALSE

(* A call that did not do what it should, but not in a way judged here,      *)
(* leaves nothing to go on with.                                             *)
Usable(s, e) ==
  CASE e.op = "policies" -> PoliciesUsable(s, e.res)
    [] e.op = "update"   -> (e.res.st = "ok") = Trainable(s.net, s.trn[e.t])
    [] e.op \in {"trainer", "sample", "reload", "load"} -> e.res.st = "ok"
    [] OTHER -> TRUE

After(s, e) ==
  CASE e.op = "policies" -> [s EXCEPT !.pol = TLCEval(PolicyOf(s.net, e.res))]
    [] e.op = "reload"   -> [s EXCEPT !.pol = NoPolicies(s.net), !.trn = << >>]
    [] e.op = "trainer"  -> [s EXCEPT !.trn = Append(@, NewTrainer(s.net))]
    [] e.op = "sample"   -> [s EXCEPT !.trn[e.t] = TLCEval(AddSamples(s.net, @, e.xs))]
    [] e.op = "update"   ->
         IF e.res.st # "ok" THEN s
         ELSE LET tab == TLCEval(Trained(s.net, s.trn[e.t]))
                  net == [s.net EXCEPT !.tab = tab]
              IN [s EXCEPT !.net = net, !.ftab = e.res.tab, !.norm = TLCEval(NormTables(net))]
    [] OTHER -> s
=============================================================================
