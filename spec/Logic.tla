------------------------------- MODULE Logic --------------------------------
(* The meaning of the logic operators. Parents are boolean (outcome 0 is     *)
(* True), except for the outcome-* operators, whose only parent has a number *)
(* of outcomes. Row r of a table (from 0) belongs to one combination of      *)
(* parent outcomes, the first parent varying slowest.                        *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k-1)

(* Is parent i (from 0) of n True in row r?                                  *)
IsTrue(r, i, n) == (r \div Pow2(n-1-i)) % 2 = 0
NTrue(r, n) == Cardinality({i \in 0..(n-1) : IsTrue(r, i, n)})

Unary  == {"not", "equals", "equals-not", "if-then", "if-not-then", "if-then-not", "if-not-then-not"}
Binary == {"and", "not-and", "and-not", "not-and-not", "or", "not-or", "or-not", "not-or-not", "xor",
           "cond", "not-cond", "cond-not", "not-cond-not", "bicond"}
Counts == {"count-is", "count-less", "count-greater"}
Givens == {"given", "given-not", "given-excl"}
Pairs  == {"outcome-is", "outcome-is-not", "outcome-less", "outcome-greater"}
Multi  == {"count-true", "count-false", "bits"}
Operators == Unary \cup Binary \cup Counts \cup Givens \cup Pairs \cup Multi \cup {"outcome-either"}

(* Number of arguments an operator takes.                                    *)
ArgsFit(name, args) ==
  CASE name \in Unary \cup Binary \cup Multi -> Len(args) = 0
    [] name \in Counts \cup Givens -> Len(args) = 1
    [] name \in Pairs -> Len(args) = 2
    [] name = "outcome-either" -> Len(args) >= 2

(* Is there a table for these arguments and this number of parents?          *)
Defined(name, args, n) ==
  CASE name \in Unary -> n = 1
    [] name \in Binary -> n = 2
    [] name \in Multi \cup Counts -> TRUE
    [] name \in Givens -> args[1] >= 0 /\ args[1] < n
    [] name \in {"outcome-is", "outcome-is-not"} -> n = 1 /\ args[1] >= 0 /\ args[1] < args[2]
    [] name \in {"outcome-less", "outcome-greater"} -> n = 1 /\ args[2] >= 1 /\ args[1] >= 0 /\ args[1] <= args[2]
    [] name = "outcome-either" ->
         n = 1 /\ \A i \in 1..(Len(args)-1) : args[i] >= 0 /\ args[i] < args[Len(args)]

(* Numbers of rows and columns of the table.                                 *)
Rows(name, args, n) ==
  IF name \in Pairs \cup {"outcome-either"} THEN args[Len(args)] ELSE Pow2(n)
Cols(name, n) ==
  CASE name \in {"count-true", "count-false"} -> n + 1
    [] name = "bits" -> Pow2(n)
    [] OTHER -> 2

(* The value of boolean operators in row r: "T", "F", or "?" where it is     *)
(* open.                                                                     *)
TF(b) == IF b THEN "T" ELSE "F"
Holds(name, args, n, r) ==
  LET a == IsTrue(r, 0, n)
      b == IsTrue(r, 1, n)
      Given(i) == IsTrue(r, args[1], n)
      others == \E i \in 0..(n-1) : i # args[1] /\ IsTrue(r, i, n)
  IN CASE name = "not" -> TF(~a)
       [] name = "equals" -> TF(a)
       [] name = "equals-not" -> TF(~a)
       [] name = "and" -> TF(a /\ b)
       [] name = "not-and" -> TF(~a /\ b)
       [] name = "and-not" -> TF(a /\ ~b)
       [] name = "not-and-not" -> TF(~a /\ ~b)
       [] name = "or" -> TF(a \/ b)
       [] name = "not-or" -> TF(~a \/ b)
       [] name = "or-not" -> TF(a \/ ~b)
       [] name = "not-or-not" -> TF(~a \/ ~b)
       [] name = "xor" -> TF(a # b)
       [] name = "cond" -> TF(a => b)
       [] name = "not-cond" -> TF(~a => b)
       [] name = "cond-not" -> TF(a => ~b)
       [] name = "not-cond-not" -> TF(~a => ~b)
       [] name = "bicond" -> TF(a <=> b)
       [] name = "if-then" -> IF a THEN "T" ELSE "?"
       [] name = "if-not-then" -> IF ~a THEN "T" ELSE "?"
       [] name = "if-then-not" -> IF a THEN "F" ELSE "?"
       [] name = "if-not-then-not" -> IF ~a THEN "F" ELSE "?"
       [] name = "count-is" -> TF(NTrue(r, n) = args[1])
       [] name = "count-less" -> TF(NTrue(r, n) < args[1])
       [] name = "count-greater" -> TF(NTrue(r, n) > args[1])
       [] name = "given" -> TF(Given(0))
       [] name = "given-not" -> TF(~Given(0))
       [] name = "given-excl" -> TF(Given(0) /\ ~others)
       [] name = "outcome-is" -> TF(r = args[1])
       [] name = "outcome-is-not" -> TF(r # args[1])
       [] name = "outcome-less" -> TF(r < args[1])
       [] name = "outcome-greater" -> TF(r > args[1])
       [] name = "outcome-either" -> TF(\E i \in 1..(Len(args)-1) : args[i] = r)

(* The certain outcome of the other operators in row r. bits reads True as   *)
(* 1, the first parent being the most significant bit.                       *)
RECURSIVE BitsOf(_, _, _)
BitsOf(r, i, n) ==
  IF i = n THEN 0 ELSE (IF IsTrue(r, i, n) THEN Pow2(n-1-i) ELSE 0) + BitsOf(r, i+1, n)
Outcome(name, n, r) ==
  CASE name = "count-true" -> NTrue(r, n)
    [] name = "count-false" -> n - NTrue(r, n)
    [] name = "bits" -> BitsOf(r, 0, n)

Entry(name, args, n, r, c) ==
  IF name \in Multi THEN IF Outcome(name, n, r) = c THEN "1" ELSE "0"
  ELSE LET h == Holds(name, args, n, r)
       IN CASE h = "?" -> "1/2"
            [] h = "T" -> IF c = 0 THEN "1" ELSE "0"
            [] h = "F" -> IF c = 0 THEN "0" ELSE "1"

LogicTable(name, args, n) ==
  LET cols == Cols(name, n)
  IN [i \in 1..(Rows(name, args, n) * cols) |-> Entry(name, args, n, (i-1) \div cols, (i-1) % cols)]
=============================================================================
