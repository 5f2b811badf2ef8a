-------------------------------- MODULE Geom --------------------------------
(* Vectors, rotation matrices and rigid transforms over an abstract ordered   *)
(* ring.  Instantiated over the integers (right angles only; exhaustive       *)
(* model checking) and over the reals of Num (validation of recorded runs).   *)
(* Rotations are 3x3 matrices: deliberately not the representation that the   *)
(* implementation uses (quaternions).                                         *)
LOCAL INSTANCE Sequences

CONSTANTS Add(_, _), Sub(_, _), Mul(_, _),   \* the ring
          Zero, One,
          CosA(_), SinA(_)                   \* cosine and sine of an angle

Neg(a) == Sub(Zero, a)

VZero       == <<Zero, Zero, Zero>>
VAdd(a, b)  == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3])>>
VSub(a, b)  == <<Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3])>>
VScale(s, a) == <<Mul(s, a[1]), Mul(s, a[2]), Mul(s, a[3])>>
Dot(a, b)   == Add(Add(Mul(a[1], b[1]), Mul(a[2], b[2])), Mul(a[3], b[3]))
Cross(a, b) == << Sub(Mul(a[2], b[3]), Mul(a[3], b[2])),
                  Sub(Mul(a[3], b[1]), Mul(a[1], b[3])),
                  Sub(Mul(a[1], b[2]), Mul(a[2], b[1])) >>

EX == <<One, Zero, Zero>>
EY == <<Zero, One, Zero>>
EZ == <<Zero, Zero, One>>
Axis(k) == CASE k = 1 -> EX [] k = 2 -> EY [] k = 3 -> EZ

MId    == <<EX, EY, EZ>>
MZero  == <<VZero, VZero, VZero>>
Col(A, k)   == <<A[1][k], A[2][k], A[3][k]>>
MT(A)       == <<Col(A, 1), Col(A, 2), Col(A, 3)>>
MV(A, x)    == <<Dot(A[1], x), Dot(A[2], x), Dot(A[3], x)>>
MMRow(r, B) == <<Dot(r, Col(B, 1)), Dot(r, Col(B, 2)), Dot(r, Col(B, 3))>>
MM(A, B)    == <<MMRow(A[1], B), MMRow(A[2], B), MMRow(A[3], B)>>
MAdd(A, B)  == <<VAdd(A[1], B[1]), VAdd(A[2], B[2]), VAdd(A[3], B[3])>>
MScale(s, A) == <<VScale(s, A[1]), VScale(s, A[2]), VScale(s, A[3])>>
Outer(a, b) == <<VScale(a[1], b), VScale(a[2], b), VScale(a[3], b)>>

RotX(a) == << EX, <<Zero, CosA(a), Neg(SinA(a))>>, <<Zero, SinA(a), CosA(a)>> >>
RotY(a) == << <<CosA(a), Zero, SinA(a)>>, EY, <<Neg(SinA(a)), Zero, CosA(a)>> >>
RotZ(a) == << <<CosA(a), Neg(SinA(a)), Zero>>, <<SinA(a), CosA(a), Zero>>, EZ >>

(* roll about x, then pitch about y, then yaw about z, in fixed axes *)
Rpy(r, p, y) == MM(RotZ(y), MM(RotY(p), RotX(r)))
RpyV(v)      == Rpy(v[1], v[2], v[3])

(* rotation by angle t about the unit axis a (Rodrigues) *)
RotAxis(a, t) ==
  LET c == CosA(t)
      s == SinA(t)
      K == << <<Zero, Neg(a[3]), a[2]>>, <<a[3], Zero, Neg(a[1])>>, <<Neg(a[2]), a[1], Zero>> >>
  IN MAdd(MAdd(MScale(c, MId), MScale(s, K)), MScale(Sub(One, c), Outer(a, a)))

(* rigid transforms *)
TId           == [R |-> MId, p |-> VZero]
Tf(R, p)      == [R |-> R, p |-> p]
Compose(A, B) == [R |-> MM(A.R, B.R), p |-> VAdd(MV(A.R, B.p), A.p)]
TInv(A)       == LET Rt == MT(A.R) IN [R |-> Rt, p |-> VSub(VZero, MV(Rt, A.p))]
Apply(A, x)   == VAdd(MV(A.R, x), A.p)
=============================================================================
