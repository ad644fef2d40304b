-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers. TLC's integers have 32 bits, which is not enough *)
(* for products of probabilities, so a rational is a string "n" or "n/d" in *)
(* lowest terms, and Rat.java (on TLC's class path) implements the          *)
(* operators below on arbitrary precision integers. MCRat.tla checks the    *)
(* implementation against TLC's own integers on all small fractions.        *)
(* Values observed from the code can also be "NaN", "+Inf" or "-Inf".       *)
EXTENDS Integers, Sequences

RInt(n)    == CHOOSE x \in {} : TRUE  \* the integer n
RAdd(a, b) == CHOOSE x \in {} : TRUE
RSub(a, b) == CHOOSE x \in {} : TRUE
RMul(a, b) == CHOOSE x \in {} : TRUE
RDiv(a, b) == CHOOSE x \in {} : TRUE
RLe(a, b)  == CHOOSE x \in {} : TRUE
RLt(a, b)  == CHOOSE x \in {} : TRUE
REq(a, b)  == CHOOSE x \in {} : TRUE
RSum(s)    == CHOOSE x \in {} : TRUE  \* sum of a sequence
RIsNum(a)  == CHOOSE x \in {} : TRUE  \* not NaN or infinite
RParse(t)  == CHOOSE x \in {} : TRUE  \* value of a decimal numeral, or "NaN"
RDecimals(t)  == CHOOSE x \in {} : TRUE  \* number of digits after its point
RIsPercent(t) == CHOOSE x \in {} : TRUE  \* whether t is a numeral (or NaN) followed by %
RPercent(t)   == CHOOSE x \in {} : TRUE  \* the numeral before the %

RNeg(a) == RSub("0", a)
RAbs(a) == IF RLt(a, "0") THEN RNeg(a) ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b

Eps == "1/1000000000"

RECURSIVE RPow10(_)
RPow10(k) == IF k = 0 THEN "1" ELSE RMul("10", RPow10(k-1))
(* Where floating point underflows. *)
Tiny == RDiv("1", RPow10(300))

(* An observed float is the exact value up to rounding: relative to the     *)
(* magnitude of what was summed up to get it (scale).                       *)
RCloseTo(obs, exact, scale) ==
  RIsNum(obs) /\ RLe(RAbs(RSub(obs, exact)), RMul(Eps, scale))

RClose(obs, exact) == RCloseTo(obs, exact, RMax("1", RAbs(exact)))

(* Relative closeness, for numbers of any magnitude.                        *)
RCloseRel(obs, exact) == RCloseTo(obs, exact, RAbs(exact))

RCloseAll(obs, exact) ==
  /\ Len(obs) = Len(exact)
  /\ \A i \in 1..Len(obs) : RClose(obs[i], exact[i])
=============================================================================
