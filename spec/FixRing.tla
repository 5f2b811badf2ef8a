------------------------------- MODULE FixRing -------------------------------
(* Exact arithmetic for model checking: numbers are multiples of 1/16 (kept   *)
(* as integers), angles are counted in quarter turns so that every sine and   *)
(* cosine is exact.  An operation whose result is not a multiple of 1/16 is   *)
(* an error, never rounded.                                                   *)
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

U == 16        \* one
Exactly(a, b) ==      \* a / b
  LET s == IF b < 0 THEN -1 ELSE 1
  IN IF (s * a) % (s * b) = 0 THEN (s * a) \div (s * b) ELSE Assert(FALSE, <<"inexact", a, b>>)
FAdd(a, b) == a + b
FSub(a, b) == a - b
FMul(a, b) == Exactly(a * b, U)
FDiv(a, b) == Exactly(a * U, b)
FZero == 0
FOne  == U
FCos(k) == CASE k % 4 = 0 -> U [] k % 4 = 2 -> 0 - U [] OTHER -> 0
FSin(k) == CASE k % 4 = 1 -> U [] k % 4 = 3 -> 0 - U [] OTHER -> 0
(* cosine of the pitch, pitch within +-90 degrees: only 0 and 1 are possible  *)
FCosPitch(R) == IF R[1][1] # 0 \/ R[2][1] # 0 THEN U ELSE 0
=============================================================================
