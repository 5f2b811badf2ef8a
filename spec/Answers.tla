------------------------------- MODULE Answers -------------------------------
(* What the queries answer, as functions of a model record (Robot.tla): base  *)
(* columns, mass properties, balance points, distances, and their exact       *)
(* derivatives.  Model checked over the integers in RobotMC.tla (where every  *)
(* derivative is compared with a difference quotient that is exact for right  *)
(* angles), used over the reals in TinyfkTrace.tla.                           *)
EXTENDS Robot

CONSTANTS Div(_, _),       \* division in the ring
          CosPitch(_)      \* cosine of the pitch of a rotation, pitch within +-90 degrees


RollAxis(R) == Col(R, 1)
PitchAxis(R) == LET c == CosPitch(R) IN <<Sub(Zero, Div(R[2][1], c)), Div(R[1][1], c), Zero>>


--------------------------------------------------------------------------------
(* The six base coordinates are position and canonical roll, pitch, yaw       *)
(* (pitch within +-90 degrees) of the base; a planar base has the first,      *)
(* second and last of them.                                                   *)

Coords(base) == CASE base = "fixed" -> <<>> [] base = "planar" -> <<1, 2, 6>> [] base = "floating" -> <<1, 2, 3, 4, 5, 6>>

BaseTwist(m, i, k) ==
  IF k <= 3 THEN [v |-> Axis(k), w |-> VZero]
  ELSE LET B == m.base.R
           w == CASE k = 4 -> RollAxis(B) [] k = 5 -> PitchAxis(B) [] k = 6 -> EZ
       IN [v |-> Cross(w, VSub(m.pose[i].p, m.base.p)), w |-> w]


--------------------------------------------------------------------------------
(* Mass properties *)

Sum(f(_), S) == FoldLeft(LAMBDA acc, i : Add(acc, f(i)), Zero, S)
VSum(f(_), S) == FoldLeft(LAMBDA acc, i : VAdd(acc, f(i)), VZero, S)
VDiv(a, s) == <<Div(a[1], s), Div(a[2], s), Div(a[3], s)>>
Idx(s) == [i \in DOMAIN s |-> i]

TotalMass(m) == Sum(LAMBDA i : m.mass[i].m, Idx(m.mass))
MassPoint(m, i) == Apply(m.pose[m.mass[i].link], m.mass[i].F.p)
Com(m) == VDiv(VSum(LAMBDA i : VScale(m.mass[i].m, MassPoint(m, i)), Idx(m.mass)), TotalMass(m))


(* velocity of the center of mass under joint j / base coordinate k *)
PointTwist(m, lnk, x, j) ==     \* velocity of point x fixed to link lnk
  LET tw == Twist(m, m.pose, lnk, j)
  IN VAdd(tw.v, Cross(tw.w, VSub(x, m.pose[lnk].p)))
PointBaseTwist(m, x, k) ==
  IF k <= 3 THEN Axis(k)
  ELSE LET tw == BaseTwist(m, 1, k) IN Cross(tw.w, VSub(x, m.base.p))
ComRate(m, j) ==
  VDiv(VSum(LAMBDA i : VScale(m.mass[i].m, PointTwist(m, m.mass[i].link, MassPoint(m, i), j)), Idx(m.mass)), TotalMass(m))
ComBaseRate(m, k) == PointBaseTwist(m, Com(m), k)


Inertia(m) ==
  LET c == Com(m)
      part(i) ==
        LET d  == VSub(MassPoint(m, i), c)
            Rw == MM(m.pose[m.mass[i].link].R, m.mass[i].F.R)
        IN MAdd(MM(Rw, MM(m.mass[i].I, MT(Rw))),
                MScale(m.mass[i].m, MAdd(MScale(Dot(d, d), MId), MScale(Neg(One), Outer(d, d)))))
  IN FoldLeft(LAMBDA acc, i : MAdd(acc, part(i)), MZero, Idx(m.mass))

--------------------------------------------------------------------------------

(* balance point under vertical forces f at links a (1-based)                 *)
Balance(m, a, f) ==
  LET M == TotalMass(m)
  IN VDiv(VAdd(VScale(M, Com(m)), VSum(LAMBDA i : VScale(f[i], m.pose[a[i]].p), Idx(a))),
          Add(M, Sum(LAMBDA i : f[i], Idx(a))))
BalanceRate(m, a, f, j) ==
  LET M == TotalMass(m)
  IN VDiv(VAdd(VScale(M, ComRate(m, j)), VSum(LAMBDA i : VScale(f[i], Twist(m, m.pose, a[i], j).v), Idx(a))),
          Add(M, Sum(LAMBDA i : f[i], Idx(a))))
BalanceBaseRate(m, a, f, k) == PointBaseTwist(m, Balance(m, a, f), k)

(* squared distances *)
SqDist(m, a, b) == LET d == VSub(m.pose[a].p, m.pose[b].p) IN Dot(d, d)
SqGrad(m, a, b, j) ==
  Mul(Add(One, One), Dot(VSub(m.pose[a].p, m.pose[b].p),
                    VSub(Twist(m, m.pose, a, j).v, Twist(m, m.pose, b, j).v)))
(* moving the base moves both ends alike: distances do not change *)


=============================================================================
