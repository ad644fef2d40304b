---------------------------- MODULE TraceLoader -----------------------------
(* Validates recorded attempts to load descriptions of networks. Scenarios   *)
(* with a description say whether it has to be accepted; damaged documents   *)
(* (without one) may be accepted or not. Whatever is accepted can be used.   *)
EXTENDS Loader, TLC, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l, valid, verdict
H == Scenarios[sc]

Init == sc \in 1..Len(Scenarios) /\ l = 0 /\ valid = "unknown" /\ verdict = "on"

Judge ==
  /\ verdict = "on" /\ valid = "unknown"
  /\ valid' = IF H.described THEN (IF Valid(H.desc) THEN "yes" ELSE "no") ELSE "open"
  /\ UNCHANGED << sc, l, verdict >>

EventOk(e) ==
  CASE valid = "yes"  -> e.res.st = "ok" /\ (e.op = "load" => IsLoaded(H.desc, e.res))
    [] valid = "no"   -> e.res.st = "err"
    [] valid = "open" -> e.res.st \in {"ok", "err"}

Step ==
  /\ verdict = "on" /\ valid # "unknown" /\ l < Len(H.events)
  /\ IF EventOk(H.events[l+1]) THEN verdict' = "on"
     ELSE verdict' = "reject" /\ PrintT(<<"REJECT", H.id, l+1>>)
  /\ l' = l + 1
  /\ UNCHANGED << sc, valid >>

Finish ==
  /\ verdict = "on" /\ valid # "unknown" /\ l = Len(H.events)
  /\ verdict' = "done" /\ PrintT(<<"DONE", H.id, l>>)
  /\ UNCHANGED << sc, l, valid >>

Next == Judge \/ Step \/ Finish
=============================================================================
