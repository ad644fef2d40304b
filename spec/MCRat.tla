------------------------------- MODULE MCRat -------------------------------
(* Checks Rat.java against TLC's integers: fractions <<n, d>> with small     *)
(* numerator and denominator.                                               *)
EXTENDS Rat, TLC

Num == -6..6
Den == 1..5
R(f) == RDiv(RInt(f[1]), RInt(f[2]))
F == Num \X Den

VARIABLES a, b
Init == a \in F /\ b \in F
Next == UNCHANGED <<a, b>>

Same(r, n, d) == RMul(r, RInt(d)) = RInt(n)

Arithmetic ==
  /\ Same(RAdd(R(a), R(b)), a[1]*b[2] + b[1]*a[2], a[2]*b[2])
  /\ Same(RSub(R(a), R(b)), a[1]*b[2] - b[1]*a[2], a[2]*b[2])
  /\ Same(RMul(R(a), R(b)), a[1]*b[1], a[2]*b[2])
  /\ b[1] # 0 => Same(RDiv(R(a), R(b)), a[1]*b[2], a[2]*b[1])
  /\ RSum(<<R(a), R(b), R(a)>>) = RAdd(RAdd(R(a), R(a)), R(b))
Order ==
  /\ RLe(R(a), R(b)) = (a[1]*b[2] <= b[1]*a[2])
  /\ RLt(R(a), R(b)) = (a[1]*b[2] < b[1]*a[2])
  /\ REq(R(a), R(b)) = (a[1]*b[2] = b[1]*a[2])
  /\ (R(a) = R(b)) = (a[1]*b[2] = b[1]*a[2])      \* canonical form
  /\ RLe("0", RAbs(R(a)))
Parsing ==
  /\ RParse("0.25") = "1/4" /\ RParse("-12.5") = "-25/2" /\ RParse("3") = "3"
  /\ RParse("1e-3") = "1/1000" /\ RParse("x") = "NaN" /\ RParse("") = "NaN"
  /\ RParse(" 3") = "NaN" /\ RDecimals("1.250") = 3 /\ RIsPercent("12.5%") /\ RPercent("12.5%") = "12.5" /\ ~RIsPercent("12.5")
  /\ RIsNum("-1/2") /\ ~RIsNum("NaN") /\ ~RIsNum("+Inf") /\ ~RIsNum("-Inf")
=============================================================================
