---------------------------- MODULE TraceSession ----------------------------
(* Validates recorded sessions. A behaviour of this specification follows    *)
(* one recorded scenario as long as each answer of the code is one Session   *)
(* allows; the first one that is not is reported.                            *)
EXTENDS Session, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc,      \* which scenario
          l,       \* events accepted so far
          s,       \* state of the session
          verdict  \* "on", "done", "reject" or "abandon"
vars == << sc, l, s, verdict >>

H == Scenarios[sc]
NetOf(h) == h.net

Init == /\ sc \in 1..Len(Scenarios)
        /\ l = 0
        /\ s = << >>
        /\ verdict = "on"

Load ==
  /\ verdict = "on" /\ l = 0
  /\ s' = Start(H.net, H.ftab)
  /\ l' = 1
  /\ LET e == H.events[1]
     IN IF e.res.st = "ok" THEN verdict' = "on" ELSE verdict' = "reject" /\ PrintT(<<"REJECT", H.id, 1>>)
  /\ UNCHANGED sc

Step ==
  /\ verdict = "on" /\ l >= 1 /\ l < Len(H.events)
  /\ LET e == H.events[l+1]
         ok == Ok(s, e, H.events, H.judge, H.big)
     IN CASE ~ok -> /\ verdict' = "reject" /\ s' = << >>
                    /\ PrintT(<<"REJECT", H.id, l+1>>)
          [] ok /\ ~Usable(s, e) -> verdict' = "abandon" /\ s' = << >> /\ PrintT(<<"ABANDON", H.id, l+1>>)
          [] OTHER -> verdict' = "on" /\ s' = After(s, e)
  /\ l' = l + 1
  /\ UNCHANGED sc

Finish ==
  /\ verdict = "on" /\ l = Len(H.events)
  /\ verdict' = "done"
  /\ PrintT(<<"DONE", H.id, l>>)
  /\ s' = << >>
  /\ UNCHANGED << sc, l >>

Next == Load \/ Step \/ Finish
=============================================================================
