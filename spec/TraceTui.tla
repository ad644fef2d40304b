------------------------------ MODULE TraceTui ------------------------------
(* Validates recorded runs of the interactive tool.                          *)
EXTENDS Screen, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l, m, verdict
H == Scenarios[sc]

(* What is solved before anything is shown.                                  *)
Solution(s) ==
  LET M0  == TLCEval(Model(s.net, s.norm, s.order, NoPolicies(s.net), {}))
      rev == TLCEval(Reveal(s.net))
  IN [rev |-> rev,
      can |-> TLCEval([d \in Vars(s.net) |->
                IF d \in Decisions(s.net)
                THEN LET S == Situations(s.net, rev, d) IN TLCEval([i \in 1..Len(S) |-> Mass(M0, S[i]) # "0"])
                ELSE << >>])]

(* The network that is used: as in the file, or trained before.              *)
StartOk(e) ==
  /\ e.fault = ""
  /\ e.train => FileOk(H.net, e) /\ Trainable(H.net, Learned(H.net, e))

NetOf(e) == IF e.train THEN [H.net EXCEPT !.tab = TLCEval(Trained(H.net, Learned(H.net, e)))] ELSE H.net

Values(s, u) == Shown(s, EvSeq(u, s.net.n), u.ign)

Open(e) ==
  LET net == TLCEval(NetOf(e))
      s   == TLCEval(Solved(Start(net, H.ftab)))
      g   == TLCEval(Geometry(net))
      fix == Fix(net, e.ev)
      u   == Opened(g, net.pos, [v \in Vars(net) |-> fix[v]], net.info # "", e.w, e.h)
  IN [s |-> s, g |-> g, sol |-> Solution(s), u |-> Clamped(u), file |-> "net" \o e.ext, train |-> e.train,
      vals |-> TLCEval(Values(s, u)), scale |-> HowLarge(net)]

Then(e) ==
  LET u == CASE e.op = "key" -> Key(m.g, m.u, e.key)
             [] e.op = "click" -> Click(m.g, m.u, e.button, e.x, e.y)
             [] e.op = "resize" -> Resized(m.u, e.w, e.h)
  IN [m EXCEPT !.u = u, !.vals = IF u.ev = m.u.ev /\ u.ign = m.u.ign THEN m.vals ELSE TLCEval(Values(m.s, u))]

(* The saved file: positions of moved nodes, else unchanged.                 *)
SavedOk(x, d) ==
  LET net == [x.s.net EXCEPT !.pos = [v \in Vars(x.s.net) |-> IF v \in x.u.moved THEN x.u.at[v] ELSE x.s.net.pos[v]]]
  IN IF x.train THEN TrainedDocIs([x.s EXCEPT !.net = net], d, net.tab)
     ELSE d.st = "ok" /\ DumpIs(net, x.s.ftab, d)

ResOk(x, e, saves) ==
  LET r == e.res
  IN IF x.u.on
     THEN /\ r.st = "ok"
          /\ Sound(x.g, x.u)
          /\ ScreenOk(x.s, x.sol, x.g, x.file, x.u, x.vals, x.scale, r.rows)
          /\ IF saves THEN SavedOk(x, r.saved) ELSE r.saved.st = "none"
     ELSE r.st = "end" /\ r.code = 0 /\ ~r.panic

(* Only that it goes on, or ends in an orderly way.                          *)
AliveOk(e) == e.res.st \in {"ok", "skipped"} \/ (e.res.st = "end" /\ ~e.res.panic /\ e.res.code \in {0, 1})

Init == sc \in 1..Len(Scenarios) /\ l = 0 /\ m = << >> /\ verdict = "on"

Refused(e) == IF e.op = "start" THEN ~StartOk(e) ELSE FALSE
Reject == m' = << >> /\ verdict' = "reject" /\ PrintT(<<"REJECT", H.id, l+1>>)
Done   == m' = << >> /\ verdict' = "done" /\ PrintT(<<"DONE", H.id, l+1>>)

Step ==
  /\ verdict = "on" /\ l < Len(H.events)
  /\ LET e == H.events[l+1]
     IN IF ~H.judged THEN IF AliveOk(e) THEN UNCHANGED << m, verdict >> ELSE Reject
        ELSE IF Refused(e) THEN IF e.res.st = "end" /\ e.res.code = 1 /\ ~e.res.panic /\ e.res.said THEN Done ELSE Reject
        ELSE LET x  == TLCEval(IF e.op = "start" THEN Open(e) ELSE Then(e))
                 ok == ResOk(x, e, IF e.op = "key" THEN Saves(m.u, e.key) ELSE FALSE)
             IN IF ~ok THEN Reject
                ELSE IF x.u.on THEN m' = x /\ UNCHANGED verdict
                ELSE Done
  /\ l' = l + 1
  /\ UNCHANGED sc

Finish ==
  /\ verdict = "on" /\ l = Len(H.events)
  /\ verdict' = "done" /\ PrintT(<<"DONE", H.id, l>>)
  /\ m' = << >>
  /\ UNCHANGED << sc, l >>

Next == Step \/ Finish
=============================================================================
