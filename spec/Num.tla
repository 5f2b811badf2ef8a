-------------------------------- MODULE Num --------------------------------
(* Real arithmetic.  A real is an opaque value (the two 32-bit halves of its  *)
(* IEEE 754 representation, exactly what the drivers log, so nothing is lost  *)
(* between the implementation and the specification).  TLC evaluates these    *)
(* operators with java/tlc2/module/Num.java; the bodies below are never used. *)
LOCAL INSTANCE TLC

RAdd(a, b) == Assert(FALSE, "Num is not overridden")
RSub(a, b) == Assert(FALSE, "Num is not overridden")
RMul(a, b) == Assert(FALSE, "Num is not overridden")
RDiv(a, b) == Assert(FALSE, "Num is not overridden")
RAbs(a)    == Assert(FALSE, "Num is not overridden")
RMax(a, b) == Assert(FALSE, "Num is not overridden")
RSqrt(a)   == Assert(FALSE, "Num is not overridden")
RSin(a)    == Assert(FALSE, "Num is not overridden")
RCos(a)    == Assert(FALSE, "Num is not overridden")
RInt(n)    == Assert(FALSE, "Num is not overridden")   \* integer -> real
RLe(a, b)  == Assert(FALSE, "Num is not overridden")   \* <= , FALSE on NaN
RLt(a, b)  == Assert(FALSE, "Num is not overridden")
REq(a, b)  == Assert(FALSE, "Num is not overridden")   \* numerical equality
RFinite(a) == Assert(FALSE, "Num is not overridden")
RInf       == Assert(FALSE, "Num is not overridden")
RFloat(a)  == Assert(FALSE, "Num is not overridden")   \* rounding to single precision
RStr(a)    == Assert(FALSE, "Num is not overridden")   \* for messages only
=============================================================================
