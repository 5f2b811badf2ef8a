------------------------------ MODULE RigidOps ------------------------------
(* Rigid transforms in the shape of the implementation: a quaternion          *)
(* q = <<x, y, z, w>> (here with integer components, of any length) and a     *)
(* position.  The formulas are homogeneous, so that a quaternion stands for   *)
(* the unit quaternion in its direction and its squared length is carried     *)
(* along instead of divided out.                                              *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

CONSTANT Variant          \* "none" or a mistake TLC has to find
LOCAL is(v) == Variant = v

QMul(a, b) ==
  LET x == a[4] * b[1] + a[1] * b[4] + a[2] * b[3] - a[3] * b[2]
      y == a[4] * b[2] - a[1] * b[3] + a[2] * b[4] + a[3] * b[1]
      z == a[4] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[4]
      w == a[4] * b[4] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]
  IN IF is("mul_sign") THEN <<x, a[4] * b[2] + a[1] * b[3] + a[2] * b[4] + a[3] * b[1], z, w>> ELSE <<x, y, z, w>>
QProd(a, b) == IF is("mul_swapped") THEN QMul(b, a) ELSE QMul(a, b)
QConj(q)    == IF is("conj_w") THEN <<0 - q[1], 0 - q[2], 0 - q[3], 0 - q[4]>>
               ELSE IF is("conj_z") THEN <<0 - q[1], 0 - q[2], q[3], q[4]>> ELSE <<0 - q[1], 0 - q[2], 0 - q[3], q[4]>>
QNorm(q)    == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
(* q * (v * q^-1), times the squared length of q                              *)
QTurn(q, v) == SubSeq(QMul(q, QMul(<<v[1], v[2], v[3], 0>>, QConj(q))), 1, 3)

(* half angles as directions h = <<c, s>>, not normalised                     *)
QFromRpy(f, t, p) ==
  LET x == f[2] * t[1] * p[1] - f[1] * t[2] * p[2]
      y == f[1] * t[2] * p[1] + f[2] * t[1] * p[2]
      z == f[1] * t[1] * p[2] - f[2] * t[2] * p[1]
      w == f[1] * t[1] * p[1] + f[2] * t[2] * p[2]
  IN IF is("rpy_sign") THEN <<f[2] * t[1] * p[1] + f[1] * t[2] * p[2], y, z, w>>
     ELSE IF is("rpy_order") THEN <<f[2] * t[1] * p[1] + f[1] * t[2] * p[2], f[1] * t[2] * p[1] - f[2] * t[1] * p[2],
                                    f[1] * t[1] * p[2] + f[2] * t[2] * p[1], f[1] * t[1] * p[1] - f[2] * t[2] * p[2]>>
     ELSE <<x, y, z, w>>

(* the arguments of asin and atan2: sine of the pitch, <<cos, sin>> of roll and yaw times the cosine of the pitch *)
SinPitch(q) == 0 - 2 * (q[1] * q[3] - q[4] * q[2])
RollDir(q)  == <<q[4] * q[4] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3], 2 * (q[2] * q[3] + q[4] * q[1])>>
YawDir(q)   == <<q[4] * q[4] + (IF is("yaw_sign") THEN 0 - q[1] * q[1] ELSE q[1] * q[1]) - q[2] * q[2] - q[3] * q[3],
                 2 * (q[1] * q[2] + q[4] * q[3])>>
(* twice the angle of <<c, s>> *)
Twice(c, s) == <<c * c - s * s, 2 * c * s>>
(* at the singularity the roll is zero *)
YawUp(q)   == IF is("gimbal_sign") THEN Twice(q[2], q[1]) ELSE Twice(q[2], 0 - q[1])      \* pitch 90 degrees
YawDown(q) == Twice(0 - q[2], q[1])                                                        \* pitch -90 degrees

(* the rotation matrix, times the squared length                              *)
QMatN(q) ==
  LET x == q[1] y == q[2] z == q[3] w == q[4] IN
  << <<w*w + x*x - y*y - z*z, 2*(x*y - w*z),         2*(x*z + w*y)>>,
     <<2*(x*y + w*z),         w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
     <<2*(x*z - w*y),         2*(y*z + w*x),         w*w - x*x - y*y + z*z>> >>
=============================================================================
