---------------------------- MODULE TraceLogic ------------------------------
(* Validates recorded uses of the operator library by several clients. The   *)
(* state is what each client holds: an operator with its arguments, and the  *)
(* last table it got. Clients do not influence each other.                   *)
EXTENDS Logic, Json, IOUtils, TLC

Scenarios == ndJsonDeserialize(IOEnv.TRACE)
MaxClients == 4

VARIABLES sc, l, held, tabs, verdict
H == Scenarios[sc]

Nothing == [name |-> "", args |-> << >>, set |-> FALSE]

(* Listed known findings: tables that are accepted in addition.              *)
KnownTable(name, args, n, tab) ==
  /\ \E i \in 1..Len(H.known) : H.known[i] = name
  /\ name = "outcome-greater"
  /\ tab = [i \in 1..(args[2] * 2) |-> IF ((i-1) \div 2 >= args[1]) = ((i-1) % 2 = 0) THEN "1" ELSE "0"]

TableIs(r, name, args, n) ==
  IF Defined(name, args, n)
  THEN /\ r.st = "ok"
       /\ \/ r.tab = LogicTable(name, args, n)
          \/ KnownTable(name, args, n, r.tab) /\ PrintT(<<"KNOWN", H.id>>)
  ELSE r.st = "err"

FullOk(e, r) ==
  CASE e.name \notin Operators -> r.st = "unknown"
    [] ~ArgsFit(e.name, e.args) -> r.st = "err"
    [] OTHER -> TableIs(r, e.name, e.args, e.given)

(* A document that uses the operator; fit says whether the numbers of        *)
(* outcomes in it are the ones the table needs.                              *)
YamlOk(e, r) ==
  IF e.name \notin Operators \/ ~ArgsFit(e.name, e.args) \/ ~e.fit THEN r.st = "err"
  ELSE TableIs(r, e.name, e.args, e.given)

Ok(e) ==
  LET r == e.res
      h == held[e.c]
  IN CASE e.op = "get"     -> r.st = "ok" /\ r.has = (e.name \in Operators)
       [] e.op = "make"    -> r.st = "ok"
       [] e.op = "setargs" -> r.st = IF ArgsFit(h.name, e.args) THEN "ok" ELSE "err"
       [] e.op = "table"   -> ~h.set \/ TableIs(r, h.name, h.args, e.given)
       [] e.op = "scribble" -> r.st = "ok"
       [] e.op = "look"    -> r.st = "ok" /\ (tabs[e.c] # << "?" >> => r.tab = tabs[e.c])
       [] e.op = "full"    -> FullOk(e, r)
       [] e.op = "yaml"    -> YamlOk(e, r)
       [] e.op = "parallel" ->
            /\ r.st = "ok"
            /\ \A i \in 1..Len(e.clients) :
                 /\ Len(r.results[i]) = 1
                 /\ IF e.clients[i].doc = "" THEN FullOk(e.clients[i], r.results[i][1])
                    ELSE YamlOk(e.clients[i], r.results[i][1])
       [] OTHER -> FALSE

(* An operator without arguments needs none; others are not judged before    *)
(* they got arguments. After a failed SetArgs, nothing is known.             *)
NextHeld(e) ==
  CASE e.op = "get" -> IF e.name \in Operators
                       THEN [name |-> e.name, args |-> << >>, set |-> ArgsFit(e.name, << >>)] ELSE held[e.c]
    [] e.op = "make" -> [name |-> e.name, args |-> e.args, set |-> TRUE]
    [] e.op = "setargs" -> IF e.res.st = "ok" THEN [held[e.c] EXCEPT !.args = e.args, !.set = TRUE]
                           ELSE [held[e.c] EXCEPT !.set = ArgsFit(@.name, << >>)]
    [] OTHER -> held[e.c]
NextTab(e) ==
  CASE e.op = "table" -> IF e.res.st = "ok" THEN e.res.tab ELSE tabs[e.c]
    [] e.op = "scribble" -> << "?" >>
    [] OTHER -> tabs[e.c]

Init == /\ sc \in 1..Len(Scenarios) /\ l = 0 /\ verdict = "on"
        /\ held = [c \in 1..MaxClients |-> Nothing]
        /\ tabs = [c \in 1..MaxClients |-> << >>]

Step ==
  /\ verdict = "on" /\ l < Len(H.events)
  /\ LET e == H.events[l+1]
     IN IF Ok(e)
        THEN /\ verdict' = "on"
             /\ held' = [held EXCEPT ![e.c] = NextHeld(e)]
             /\ tabs' = [tabs EXCEPT ![e.c] = NextTab(e)]
        ELSE verdict' = "reject" /\ PrintT(<<"REJECT", H.id, l+1>>) /\ UNCHANGED << held, tabs >>
  /\ l' = l + 1
  /\ UNCHANGED sc

Finish ==
  /\ verdict = "on" /\ l = Len(H.events)
  /\ verdict' = "done" /\ PrintT(<<"DONE", H.id, l>>)
  /\ UNCHANGED << sc, l, held, tabs >>

Next == Step \/ Finish
=============================================================================
