------------------------------ MODULE RigidLaws ------------------------------
(* K20, for ALL rotations: what the quaternion formulas have to do with       *)
(* rotation matrices are polynomial identities of degree at most two in every *)
(* component (six for the determinant), so that they hold everywhere if they  *)
(* hold on a grid of three (seven) values per component; the grids are        *)
(* explored completely.                                                       *)
(*   phase "mul":  a, b two quaternions        (3^8 points)                   *)
(*   phase "one":  a quaternion, b a vector    (3^7 points)                   *)
(*   phase "unit": a quaternion                (7^4 points)                   *)
(*   phase "rpy":  three half angles <<c, s>>  (3^6 points)                   *)
EXTENDS RigidOps, Geom, Integers, Sequences, TLC

IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
IZero == 0
IOne == 1
INone(a) == Assert(FALSE, "no angles here")

VARIABLES phase, a, b, todo
vars == <<phase, a, b, todo>>
G == IF phase = "unit" THEN -3..3 ELSE -1..1

(* the points of the grid are reached one component at a time                 *)
Init == /\ phase \in {"mul", "one", "unit", "rpy"}
        /\ a = <<>> /\ b = <<>> /\ todo = (CASE phase = "mul" -> <<4, 4>> [] phase = "one" -> <<4, 3>> [] phase = "unit" -> <<4, 0>> [] OTHER -> <<6, 0>>)
Next == \/ \E v \in G : Len(a) < todo[1] /\ a' = Append(a, v) /\ UNCHANGED <<phase, b, todo>>
        \/ \E v \in G : Len(a) = todo[1] /\ Len(b) < todo[2] /\ b' = Append(b, v) /\ UNCHANGED <<phase, a, todo>>
Spec == Init /\ [][Next]_vars
Full == Len(a) = todo[1] /\ Len(b) = todo[2]

(* composing quaternions composes rotations *)
Composes == phase = "mul" /\ Full => QMatN(QProd(a, b)) = MM(QMatN(a), QMatN(b))
Norms    == phase = "mul" /\ Full => QNorm(QProd(a, b)) = QNorm(a) * QNorm(b)
(* the matrix is a multiple of a rotation; the conjugate is its inverse, on both sides *)
Proper == phase = "unit" /\ Full =>
  LET M == QMatN(a) n == QNorm(a) IN
  /\ MM(M, MT(M)) = MScale(n * n, MId)
  /\ Dot(M[1], Cross(M[2], M[3])) = n * n * n
Inverts == phase = "one" /\ Full =>
  /\ QProd(a, QConj(a)) = <<0, 0, 0, QNorm(a)>> /\ QProd(QConj(a), a) = <<0, 0, 0, QNorm(a)>>
  /\ QMatN(QConj(a)) = MT(QMatN(a))
(* turning a vector is multiplying with the matrix *)
Turns == phase = "one" /\ Full => QTurn(a, b) = MV(QMatN(a), b)
(* the opposite quaternion is the same rotation *)
Double == phase = "one" /\ Full => QMatN([k \in 1..4 |-> 0 - a[k]]) = QMatN(a)

(* roll, pitch, yaw.  With half angles h the doubled angle has cosine c*c-s*s *)
(* and sine 2*c*s, and one is c*c+s*s                                         *)
H(k) == <<a[2 * k - 1], a[2 * k]>>
CC(h) == h[1] * h[1] - h[2] * h[2]
SS(h) == 2 * h[1] * h[2]
NN(h) == h[1] * h[1] + h[2] * h[2]
RX(h) == << <<NN(h), 0, 0>>, <<0, CC(h), 0 - SS(h)>>, <<0, SS(h), CC(h)>> >>
RY(h) == << <<CC(h), 0, SS(h)>>, <<0, NN(h), 0>>, <<0 - SS(h), 0, CC(h)>> >>
RZ(h) == << <<CC(h), 0 - SS(h), 0>>, <<SS(h), CC(h), 0>>, <<0, 0, NN(h)>> >>
FromRpy == phase = "rpy" /\ Full => QMatN(QFromRpy(H(1), H(2), H(3))) = MM(RZ(H(3)), MM(RY(H(2)), RX(H(1))))
(* what asin and atan2 are given are sine and (with a common positive factor, *)
(* the cosine of the pitch) cosine and sine of the angles that were set       *)
ToRpy == phase = "rpy" /\ Full =>
  LET q == QFromRpy(H(1), H(2), H(3)) IN
  /\ SinPitch(q) = NN(H(1)) * SS(H(2)) * NN(H(3))
  /\ RollDir(q) = <<CC(H(1)) * CC(H(2)) * NN(H(3)), SS(H(1)) * CC(H(2)) * NN(H(3))>>
  /\ YawDir(q) = <<CC(H(3)) * CC(H(2)) * NN(H(1)), SS(H(3)) * CC(H(2)) * NN(H(1))>>
=============================================================================
