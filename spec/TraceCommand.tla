---------------------------- MODULE TraceCommand ----------------------------
(* Validates recorded invocations of the command line tool. Invocations of   *)
(* one scenario use the same network file.                                   *)
EXTENDS Command, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l, s, verdict
H == Scenarios[sc]

Init == sc \in 1..Len(Scenarios) /\ l = 0 /\ s = << >> /\ verdict = "on"

Open ==
  /\ verdict = "on" /\ s = << >>
  /\ s' = LET t == Start(H.net, H.ftab) IN IF H.solve THEN Solved(t) ELSE t
  /\ UNCHANGED << sc, l, verdict >>

Step ==
  /\ verdict = "on" /\ s # << >> /\ l < Len(H.events)
  /\ LET e  == H.events[l+1]
         ok == IF e.op = "train" THEN TrainOk(s, e) ELSE InferOk(s, e)
     IN IF ok THEN verdict' = "on" /\ UNCHANGED s
        ELSE verdict' = "reject" /\ s' = << >> /\ PrintT(<<"REJECT", H.id, l+1>>)
  /\ l' = l + 1
  /\ UNCHANGED sc

Finish ==
  /\ verdict = "on" /\ s # << >> /\ l = Len(H.events)
  /\ verdict' = "done" /\ PrintT(<<"DONE", H.id, l>>)
  /\ s' = << >>
  /\ UNCHANGED << sc, l >>

Next == Open \/ Step \/ Finish
=============================================================================
