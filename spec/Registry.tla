------------------------------ MODULE Registry ------------------------------
(* Clients of the operator library: interleavings of fetching operators by   *)
(* name, setting their arguments, building tables, and overwriting tables.   *)
(*                                                                           *)
(* The library is modelled with a heap of operator instances and one of      *)
(* table buffers. SharedOps and SharedTabs are the design choices: does      *)
(* fetching by name hand out one instance for all, do tables of one operator *)
(* share a buffer? Private is what users rely on; it holds if nothing is     *)
(* shared, and TLC finds counterexamples otherwise.                          *)
(*                                                                           *)
(* With EMIT, TLC prints the interleavings, which are executed on the code   *)
(* and judged by TraceLogic.                                                 *)
EXTENDS Integers, Sequences, TLC, IOUtils

CONSTANTS Clients, Names, Args, Depth, SharedOps, SharedTabs, Emit

VARIABLES hist,   \* << client, action, name, argument >>
          inst,   \* instance each client holds: << name, number >>, or << >>
          args,   \* instance -> argument
          want,   \* argument each client has set since it got its operator, or -1
          buf,    \* table buffer each client got last, or << >>
          mem,    \* buffer -> content
          due,    \* content each client expects in its buffer
          done
vars == << hist, inst, args, want, buf, mem, due, done >>

Keys == (Names \X (0..Depth))

Init == /\ hist = << >> /\ done = FALSE
        /\ inst = [c \in Clients |-> << >>]
        /\ args = [k \in Keys |-> 0]
        /\ want = [c \in Clients |-> -1]
        /\ buf  = [c \in Clients |-> << >>]
        /\ mem  = [k \in Keys |-> 0]
        /\ due  = [c \in Clients |-> 0]

Do(c, a, n, x) == hist' = Append(hist, << c, a, n, x >>)
Fresh(shared, n) == << n, IF shared THEN 0 ELSE Len(hist) + 1 >>

Get(c, n) == /\ inst' = [inst EXCEPT ![c] = Fresh(SharedOps, n)]
             /\ want' = [want EXCEPT ![c] = -1]
             /\ Do(c, "get", n, 0)
             /\ UNCHANGED << args, buf, mem, due >>
SetArgs(c, x) == /\ inst[c] # << >>
                 /\ args' = [args EXCEPT ![inst[c]] = x]
                 /\ want' = [want EXCEPT ![c] = x]
                 /\ Do(c, "setargs", inst[c][1], x)
                 /\ UNCHANGED << inst, buf, mem, due >>
Table(c) == /\ inst[c] # << >> /\ want[c] >= 0
            /\ LET b == Fresh(SharedTabs, inst[c][1])
               IN /\ buf' = [buf EXCEPT ![c] = b]
                  /\ mem' = [mem EXCEPT ![b] = args[inst[c]]]
            /\ due' = [due EXCEPT ![c] = want[c]]
            /\ Do(c, "table", inst[c][1], 0)
            /\ UNCHANGED << inst, args, want >>
Scribble(c) == /\ buf[c] # << >> /\ due[c] # 777
               /\ mem' = [mem EXCEPT ![buf[c]] = 777]
               /\ due' = [due EXCEPT ![c] = 777]
               /\ Do(c, "scribble", "", 0)
               /\ UNCHANGED << inst, args, want, buf >>

Show == /\ Len(hist) = Depth /\ ~done /\ Emit
         /\ done' = TRUE /\ PrintT(<< "SCHED", hist >>)
         /\ UNCHANGED << hist, inst, args, want, buf, mem, due >>

Next == \/ /\ Len(hist) < Depth /\ UNCHANGED done
           /\ \E c \in Clients : \/ \E n \in Names : Get(c, n)
                                 \/ \E x \in Args : SetArgs(c, x)
                                 \/ Table(c) \/ Scribble(c)
        \/ Show

(* Each client finds in its table what it asked for itself.                  *)
Private == \A c \in Clients : buf[c] # << >> => mem[buf[c]] = due[c]
=============================================================================
