-------------------------------- MODULE Rigid --------------------------------
(* K20: rigid transforms as a machine.  The state is a transform the way the  *)
(* implementation has it (quaternion and position, RigidOps) next to the      *)
(* transform it stands for (matrix and position, Geom); both are composed,    *)
(* inverted, re-made from the three views, and have to stay the same.         *)
(* Rotations are the 48 quaternions of the 24 right-angle rotations; the unit *)
(* quaternion is q / sqrt(2^k), q with integer components: nothing is rounded.*)
EXTENDS RigidOps, Geom, FixRing, Integers, Sequences, TLC, Json

CONSTANTS Positions, MaxPos

VARIABLES q, k, p,      \* the implementation's transform
          T             \* what it stands for
vars == <<q, k, p, T>>
is(v) == Variant = v

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16
(* shortest form *)
RECURSIVE Shorten(_, _)
Shorten(a, n) == IF n >= 2 /\ \A i \in 1..4 : a[i] % 2 = 0 THEN Shorten([i \in 1..4 |-> a[i] \div 2], n - 2) ELSE [q |-> a, k |-> n]
Unit(a, n) == QNorm(a) = Pow2(n)

Turn(a, n, v) == [i \in 1..3 |-> Exactly(QTurn(a, v)[i], Pow2(n))]
MatOf(a, n) == [i \in 1..3 |-> [j \in 1..3 |-> Exactly(QMatN(a)[i][j] * U, Pow2(n))]]

(* the generators: quarter turns about the axes, some positions *)
Quarters == {<<1, 0, 0, 1>>, <<0, -1, 0, 1>>, <<0, 0, 1, 1>>}
TfOf(g, n, pos) == [R |-> MatOf(g, n), p |-> pos]

(* composition and inverse of the implementation *)
PCompose(a, n, x, b, m, y) == LET r == Shorten(QProd(a, b), n + m) IN
  [q |-> r.q, k |-> r.k, p |-> VAdd(IF is("pos_unturned") THEN y ELSE IF is("pos_by_inverse") THEN Turn(QConj(a), n, y) ELSE Turn(a, n, y), x)]
PInverse(a, n, x) ==
  [q |-> QConj(a), k |-> n, p |-> LET m == [i \in 1..3 |-> 0 - x[i]] IN
     IF is("inv_unturned") THEN m ELSE IF is("inv_not_negated") THEN Turn(QConj(a), n, x) ELSE IF is("inv_turned_forth") THEN Turn(a, n, m) ELSE Turn(QConj(a), n, m)]

(* half of j quarter turns as a direction, and its squared length *)
Half(j) == CASE j % 4 = 0 -> <<1, 0>> [] j % 4 = 1 -> <<1, 1>> [] j % 4 = 2 -> <<0, 1>> [] j % 4 = 3 -> <<-1, 1>>
HalfK(j) == j % 2
FromRpy(r) == Shorten(QFromRpy(Half(r[1]), Half(r[2]), Half(r[3])), HalfK(r[1]) + HalfK(r[2]) + HalfK(r[3]))
(* the angle of a direction along an axis, in quarter turns *)
Ang(d) == CASE d[1] > 0 /\ d[2] = 0 -> 0 [] d[1] = 0 /\ d[2] > 0 -> 1 [] d[1] < 0 /\ d[2] = 0 -> 2 [] d[1] = 0 /\ d[2] < 0 -> 3
            [] OTHER -> Assert(FALSE, <<"not along an axis", d>>)
ToRpy(a, n) ==
  LET s == SinPitch(a) IN
  IF s = 0 - Pow2(n) THEN <<0, 3, Ang(YawDown(a))>>
  ELSE IF s = Pow2(n) THEN <<0, 1, Ang(YawUp(a))>>
  ELSE IF s = 0 THEN <<Ang(RollDir(a)), 0, Ang(YawDir(a))>>
  ELSE Assert(FALSE, <<"pitch", a>>)

Become(x, S) == q' = x.q /\ k' = x.k /\ p' = x.p /\ T' = S

Init == q = <<0, 0, 0, 1>> /\ k = 0 /\ p = VZero /\ T = TId

(* pose_transform(this, g), pose_transform(g, this) *)
After(g, pos)  == Become(PCompose(q, k, p, g, 1, pos), Compose(T, TfOf(g, 1, pos)))
Before(g, pos) == Become(PCompose(g, 1, pos, q, k, p), Compose(TfOf(g, 1, pos), T))
Invert  == Become(PInverse(q, k, p), TInv(T))
(* the same rotation in the other quaternion, or by way of the angles *)
Opposite == Become([q |-> [i \in 1..4 |-> 0 - q[i]], k |-> k, p |-> p], T)
Rounds == LET r == FromRpy(ToRpy(q, k)) IN Become([q |-> r.q, k |-> r.k, p |-> p], T)
(* from angles that were given *)
Angles == p = VZero /\ \E r \in (0..3) \X (0..3) \X (0..3) : LET x == FromRpy(r) IN Become([q |-> x.q, k |-> x.k, p |-> p], [T EXCEPT !.R = RpyV(r)])

Next == (\E g \in Quarters, pos \in Positions : After(g, pos) \/ Before(g, pos)) \/ Invert \/ Opposite \/ Rounds \/ Angles
Spec == Init /\ [][Next]_vars
Near == \A i \in 1..3 : p[i] <= MaxPos /\ p[i] >= 0 - MaxPos

--------------------------------------------------------------------------------
Same     == MatOf(q, k) = T.R /\ p = T.p
Length   == Unit(q, k)
RpyView  == RpyV(ToRpy(q, k)) = T.R
(* the laws of the group *)
Inverse2 == LET i == PInverse(q, k, p)
                l == PCompose(i.q, i.k, i.p, q, k, p)
                r == PCompose(q, k, p, i.q, i.k, i.p)
            IN {l, r} = {[q |-> <<0, 0, 0, 1>>, k |-> 0, p |-> VZero]}
Identity2 == LET e == [q |-> <<0, 0, 0, 1>>, k |-> 0, p |-> VZero] IN
  {PCompose(q, k, p, e.q, e.k, e.p), PCompose(e.q, e.k, e.p, q, k, p)} = {[q |-> q, k |-> k, p |-> p]}
Associative == \A g, h \in Quarters, x, y \in Positions :
  LET gh == PCompose(g, 1, x, h, 1, y) tg == PCompose(q, k, p, g, 1, x)
  IN PCompose(q, k, p, gh.q, gh.k, gh.p) = PCompose(tg.q, tg.k, tg.p, h, 1, y)
(* composition is successive application *)
Acts == \A g \in Quarters, x, v \in Positions :
  LET c == PCompose(q, k, p, g, 1, x) IN
  VAdd(Turn(c.q, c.k, v), c.p) = VAdd(Turn(q, k, VAdd(Turn(g, 1, v), x)), p)
Emit == PrintT(<<"POSE", ToJson([q |-> q, k |-> k, p |-> p])>>)
=============================================================================
