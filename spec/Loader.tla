------------------------------- MODULE Loader -------------------------------
(* Which descriptions of networks are acceptable. A description is a record  *)
(*   fmt   "yaml", "xml" or "new" (variables and factors handed over in code)*)
(*   ext   extension of the file it is in, "" if it is not in a file         *)
(*   junk  whether it contains a field nobody knows                          *)
(*   vars  sequence of [name, type, outs]                                    *)
(*   facs  sequence of [for, given, rows, odd, op, args, bad]: a table as the*)
(*         lengths of its rows (formats other than yaml have no rows, thus   *)
(*         all in one), << >> if there is none, odd if one of its values is  *)
(*         negative, not a number or infinite; or an operator, "" for none,  *)
(*         with its arguments, bad if one is not a number.                   *)
(* In YAML, factors are part of variables: one for each, in order.           *)
EXTENDS Logic, TLC

Types == {"", "nature", "decision", "utility"}
Kind(t) == CASE t \in {"", "nature"} -> "c" [] t = "decision" -> "d" [] t = "utility" -> "u"
Exts == [yaml |-> {".yml", ".YML", ".Yml"}, xml |-> {".xml", ".XML", ".bifxml", ".BIFXML", ".BifXml"}, new |-> {}]

Many == 65536  \* number of outcomes that is too large

RECURSIVE Times(_)
Times(q) == IF q = << >> THEN 1 ELSE q[1] * Times(Tail(q))
RECURSIVE Plus(_)
Plus(q) == IF q = << >> THEN 0 ELSE q[1] + Plus(Tail(q))

NV(d) == Len(d.vars)
IsName(d, x) == \E i \in 1..NV(d) : d.vars[i].name = x
At(d, x) == CHOOSE i \in 1..NV(d) : d.vars[i].name = x
Of(d, i) == {k \in 1..Len(d.facs) : d.facs[k].for = d.vars[i].name}
GivenOf(d, i) == IF Of(d, i) = {} THEN << >> ELSE d.facs[CHOOSE k \in Of(d, i) : TRUE].given
Util(d, i) == d.vars[i].type = "utility"
Cards(d, given) == [k \in 1..Len(given) |-> Len(d.vars[At(d, given[k])].outs)]

(* Utilities of utilities. *)
Totals(d) == {i \in 1..NV(d) : Util(d, i) /\ \E k \in 1..Len(GivenOf(d, i)) : Util(d, At(d, GivenOf(d, i)[k]))}

Readable(d) ==
  /\ d.ext # "" => d.ext \in Exts[d.fmt]
  /\ ~(d.fmt = "yaml" /\ d.junk)
NamesOk(d) == \A i, j \in 1..NV(d) : d.vars[i].name = d.vars[j].name => i = j
TypesOk(d) == \A i \in 1..NV(d) : d.vars[i].type \in Types
OutsOk(d) == \A i \in 1..NV(d) : Len(d.vars[i].outs) \in 1..(Many-1)
FactorsOk(d) ==
  /\ \A k \in 1..Len(d.facs) : IsName(d, d.facs[k].for)
  /\ \A k, l \in 1..Len(d.facs) : d.facs[k].for = d.facs[l].for => k = l
  /\ \A i \in 1..NV(d) :
       Of(d, i) = {} => ~Util(d, i) /\ (d.fmt = "xml" => d.vars[i].type = "decision")
ParentsOk(d) ==
  \A k \in 1..Len(d.facs) :
    /\ \A a \in 1..Len(d.facs[k].given) : IsName(d, d.facs[k].given[a])
    /\ \A a, b \in 1..Len(d.facs[k].given) : d.facs[k].given[a] = d.facs[k].given[b] => a = b

Parents(d) == TLCEval([i \in 1..NV(d) |-> {At(d, GivenOf(d, i)[k]) : k \in 1..Len(GivenOf(d, i))}])
RECURSIVE Above(_, _, _)
Above(par, set, n) ==  \* ancestors of a set of variables, up to n generations
  IF n = 0 THEN set ELSE Above(par, set \cup UNION {par[i] : i \in set}, n - 1)
AcyclicDef(d) == LET par == Parents(d) IN \A i \in 1..NV(d) : i \notin Above(par, par[i], NV(d))

(* The same, in less time: variables without parents are taken away until    *)
(* none are left. Documents checks that it is the same.                      *)
RECURSIVE Peeled(_, _)
Peeled(par, left) ==
  LET ready == {i \in left : par[i] \cap left = {}}
  IN IF ready = {} THEN left ELSE Peeled(par, left \ ready)
Acyclic(d) == Peeled(Parents(d), 1..NV(d)) = {}

UtilitiesOk(d) ==
  /\ \A i \in 1..NV(d) :
       LET g == GivenOf(d, i)
           us == {k \in 1..Len(g) : Util(d, At(d, g[k]))}
       IN IF Util(d, i) THEN Len(g) > 0 /\ (us = {} \/ us = 1..Len(g)) ELSE us = {}
  /\ Cardinality(Totals(d)) <= 1
  /\ \A t \in Totals(d) :
       /\ Len(d.vars[t].outs) = Len(GivenOf(d, t))
       /\ \A i \in 1..NV(d) : Util(d, i) /\ i # t => \E k \in 1..Len(GivenOf(d, t)) : GivenOf(d, t)[k] = d.vars[i].name

(* Tables have a row for each combination of outcomes of the parents, and a  *)
(* column for each outcome. Those of total utilities have one row only, and  *)
(* are required.                                                             *)
RowsIn(d, i) == IF i \in Totals(d) THEN 1 ELSE Times(Cards(d, GivenOf(d, i)))
Absent(d, f) == f.op = "" /\ (f.rows = << >> \/ (d.fmt = "xml" /\ f.rows = << 0 >>))
TableOk(d, i) ==
  LET f == d.facs[CHOOSE k \in Of(d, i) : TRUE]
      cols == Len(d.vars[i].outs)
      n == Len(f.given)
  IN CASE f.op # "" ->
            /\ f.rows = << >>
            /\ f.op \in Operators /\ ~f.bad /\ ArgsFit(f.op, f.args) /\ Defined(f.op, f.args, n)
            /\ i \notin Totals(d)
            /\ Cols(f.op, n) = cols
            /\ \A k \in 1..n : Cards(d, f.given)[k] = (IF f.op \in Pairs \cup {"outcome-either"} THEN f.args[Len(f.args)] ELSE 2)
       [] Absent(d, f) -> i \notin Totals(d)
       [] d.fmt = "yaml" -> Len(f.rows) = RowsIn(d, i) /\ \A r \in 1..Len(f.rows) : f.rows[r] = cols
       [] OTHER -> f.rows = << RowsIn(d, i) * cols >>
TablesOk(d) == \A i \in 1..NV(d) : Of(d, i) # {} => TableOk(d, i)

(* Utilities may be anything, tables of decisions are not used.              *)
ValuesOk(d) ==
  \A i \in 1..NV(d) : \A k \in Of(d, i) :
    d.facs[k].odd # "" /\ Plus(d.facs[k].rows) > 0 => d.vars[i].type \in {"decision", "utility"}

Valid(d) ==
  /\ Readable(d) /\ NamesOk(d) /\ TypesOk(d) /\ OutsOk(d) /\ FactorsOk(d) /\ ParentsOk(d)
  /\ Acyclic(d) /\ UtilitiesOk(d) /\ TablesOk(d) /\ ValuesOk(d)

(* The network an acceptable description gives. *)
Entries(d, i) ==
  IF Of(d, i) = {} THEN 0
  ELSE LET f == d.facs[CHOOSE k \in Of(d, i) : TRUE]
       IN IF f.op # "" THEN RowsIn(d, i) * Len(d.vars[i].outs) ELSE Plus(f.rows)
IsLoaded(d, r) ==
  /\ r.names = [i \in 1..NV(d) |-> d.vars[i].name]
  /\ r.type = [i \in 1..NV(d) |-> Kind(d.vars[i].type)]
  /\ r.outs = [i \in 1..NV(d) |-> d.vars[i].outs]
  /\ r.given = [i \in 1..NV(d) |-> GivenOf(d, i)]
  /\ \A i \in 1..NV(d) : Len(r.tab[i]) = Entries(d, i)
  /\ r.total = IF Totals(d) = {} THEN 0 ELSE CHOOSE t \in Totals(d) : TRUE
=============================================================================
