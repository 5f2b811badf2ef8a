------------------------------- MODULE GeoTrace -------------------------------
(* K20: the transform type itself.  Rotations are judged as matrices, with    *)
(* the reference operations of Geom; laws of the group are model checked on   *)
(* Geom in Rigid.tla and RigidLaws.tla; agreement with Geom carries them on.  *)
EXTENDS TinyfkTrace

QUnit(q) == LET n == RSqrt(QNorm2(q)) IN [k \in 1..4 |-> RDiv(q[k], n)]
QMatOf(q) == IF REq(QNorm2(q), RZero) THEN MId ELSE QMat(QUnit(q))   \* a zero quaternion means no rotation
PoseArg(a) == [R |-> QMat(a[2]), p |-> a[1]]

AlikeTf(name, o, T, s) ==
  /\ Ck(<<name, "position">>, VNear(o.p, T.p, RMul(E9, s)))
  /\ Ck(<<name, "rotation">>, QOk(o.q, T.R))
  /\ Ck(<<name, "rpy">>, RpyOk(o.rpy, T.R) /\ RpyOk(o.rpy2, T.R))
RotTf(R) == [R |-> R, p |-> VZero]
Mag(ps) == FoldLeft(LAMBDA s, x : RAdd(s, VMax(x)), ROne, ps)

TGeo ==
  /\ IsEvent("Geo")
  /\ UNCHANGED <<ms, nums, seen>>
  /\ LET a == Ev.args IN
     CASE Ev.f = "rpy"     -> AlikeTf("set from rpy", Ev.out, RotTf(RpyV(a[1])), ROne)
       [] Ev.f = "quat"    -> LET R == QMatOf(a[1]) IN
                              /\ AlikeTf("set from quaternion", Ev.out, RotTf(R), ROne)
                              /\ Ck("get quaternion", QOk(Ev.got, R))
       [] Ev.f = "compose" -> AlikeTf("composition", Ev.out, Compose(PoseArg(a[1]), PoseArg(a[2])), Mag(<<a[1][1], a[2][1]>>))
       [] Ev.f = "inverse" -> LET T == TInv(PoseArg(a[1])) IN
                              /\ AlikeTf("inverse", Ev.out, T, Mag(<<a[1][1]>>))
                              /\ AlikeTf("inverse in place", Ev.out2, T, Mag(<<a[1][1]>>))
       [] Ev.f = "rinverse" -> LET T == RotTf(MT(QMat(a[1][2]))) IN
                              /\ AlikeTf("rotation inverse", Ev.out, T, ROne)
                              /\ AlikeTf("GetInverse", Ev.out2, T, ROne)
                              /\ AlikeTf("rotation inverse in place", Ev.out3, T, ROne)
       [] Ev.f = "apply"   -> Ck("rotation of a vector",
                                 VNear(Ev.out, MV(QMat(a[1][2]), a[2]), RMul(E9, Mag(<<a[2]>>))))
       [] Ev.f = "vec"     -> LET t == RMul(E9, RMul(Mag(<<a[1]>>), Mag(<<a[2]>>))) IN
                              /\ Ck("sum", VNear(Ev.sum, VAdd(a[1], a[2]), t))
                              /\ Ck("difference", VNear(Ev.diff, VSub(a[1], a[2]), t))
                              /\ Ck("quotient", VNear(VScale(a[3], Ev.quot), a[1], t))
                              /\ Ck("cross product", VNear(Ev.cross, Cross(a[1], a[2]), t))
                              /\ Ck("components", Ev.idx = a[1] /\ Ev.wr = a[2])

GeoNext == TBegin \/ TGeo
GeoSpec == TraceInit /\ [][GeoNext]_xvars
=============================================================================
