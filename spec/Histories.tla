----------------------------- MODULE Histories ------------------------------
(* The language of call histories of one network: which calls make sense     *)
(* when. TLC generates histories from it (all short ones, and random longer  *)
(* ones), which are executed on the code and then judged by TraceSession.    *)
(* Calls are << operation, argument >>: which trainer, or which earlier call *)
(* to look at again; 0 for the others, whose arguments are chosen later.     *)
EXTENDS Integers, Sequences, TLC, IOUtils

Depth == atoi(IOEnv.DEPTH)
MaxTrainers == 2

VARIABLES hist,      \* calls so far
          trainers,  \* number of trainers
          fresh,     \* first call whose results have not been overwritten
          done
vars == << hist, trainers, fresh, done >>

Plain == {"query", "utility", "normutil", "policies", "toev", "dump", "rawquery", "rawutility", "rawtoev", "save"}
Keeps == {"query", "utility", "policies", "toev"}  \* calls whose results can be looked at again

Init == hist = << >> /\ trainers = 0 /\ fresh = 1 /\ done = FALSE

Do(op, arg) == hist' = Append(hist, << op, arg >>)

Call    == \E op \in Plain : Do(op, 0) /\ UNCHANGED << trainers, fresh >>
Reload  == Do("reload", 0) /\ trainers' = 0 /\ UNCHANGED fresh
Scribble == Do("scribble", 0) /\ fresh' = Len(hist) + 2 /\ UNCHANGED trainers
Recheck == \E k \in fresh..Len(hist) :
             hist[k][1] \in Keeps /\ Do("recheck", k) /\ UNCHANGED << trainers, fresh >>
Train   == trainers < MaxTrainers /\ Do("trainer", 0) /\ trainers' = trainers + 1 /\ UNCHANGED fresh
Sample  == \E t \in 1..trainers : Do("sample", t) /\ UNCHANGED << trainers, fresh >>
Update  == \E t \in 1..trainers : Do("update", t) /\ UNCHANGED << trainers, fresh >>

Emit == /\ Len(hist) = Depth /\ ~done
        /\ done' = TRUE
        /\ PrintT(<< "HIST", hist >>)
        /\ UNCHANGED << hist, trainers, fresh >>

Next == \/ /\ Len(hist) < Depth /\ UNCHANGED done
           /\ (Call \/ Reload \/ Scribble \/ Recheck \/ Train \/ Sample \/ Update)
        \/ Emit
=============================================================================
