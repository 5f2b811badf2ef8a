------------------------------- MODULE RobotMC -------------------------------
(* Exhaustive model checking of Robot and Answers over the integers: a family *)
(* of robots with right-angle geometry, every configuration in quarter turns. *)
(*                                                                            *)
(* The point is to check the specification's closed forms against what the    *)
(* properties say, independently:                                             *)
(*  - a coordinate that enters through one rotation is C + A cos q + B sin q, *)
(*    so its derivative is EXACTLY half the difference of its values a        *)
(*    quarter turn ahead and behind; one that enters through a translation is *)
(*    a polynomial of degree <= 2, and the same central difference is exact;  *)
(*  - inertia, balance, rigid attachment, covariance have second definitions. *)
(*                                                                            *)
(* Numbers are FixRing: exact or an error.                                    *)
EXTENDS Tinyfk, Answers, FixRing, Json

CONSTANTS Shapes,      \* parents of links 2, 3, .. (subset of sequences)
          JTypes, Axes, Origins, Inertials, Bases, MaxPris

VARIABLE op

vars == <<ms, nums, op>>

Name(i) == CASE i = 1 -> "m" [] i = 2 -> "a" [] i = 3 -> "z" [] i = 4 -> "k"
JName(i) == CASE i = 2 -> "j9" [] i = 3 -> "j1" [] i = 4 -> "j5"

(* names such that neither ids nor joint ids are in tree order *)
MkDoc(shape, typ, ax, org, inr) ==
  LET n == Len(shape) + 1 IN
  [ syntax |-> "ok", robot |-> TRUE, version |-> "none", materials |-> <<>>, unnamed |-> 0,
    links  |-> [i \in 1..n |-> [name |-> Name(i), inertial |-> IF inr[i] = <<>> THEN <<>> ELSE <<inr[i][1]>>]],
    joints |-> [i \in 1..(n - 1) |->
                 [name |-> <<JName(i + 1)>>, type |-> <<typ[i]>>, parent |-> <<Name(shape[i])>>, child |-> <<Name(i + 1)>>,
                  origin |-> org[i], axis |-> ax[i],
                  limit |-> IF typ[i] \in {"revolute", "prismatic"}
                            THEN <<[lower |-> <<0 - U>>, upper |-> <<U>>, effort |-> <<U>>, velocity |-> <<2 * U>>]>> ELSE <<>>,
                  lex |-> FALSE]] ]

(* the implementation's numbering: links by name, then one mass point each    *)
Order(S) == SetToSortSeq(S, LAMBDA x, y : CHOOSE b \in {TRUE, FALSE} :
                b = (<<x, y>> \in {<<"a", "k">>, <<"a", "m">>, <<"a", "z">>, <<"k", "m">>, <<"k", "z">>, <<"m", "z">>,
                                   <<"j1", "j5">>, <<"j1", "j9">>, <<"j5", "j9">>}))
LNames(d) == LET o == Order(LinkNames(d))
                 li(x) == CHOOSE i \in DOMAIN d.links : d.links[i].name = x
                 im == SelectSeq(o, LAMBDA x : Has(d.links[li(x)].inertial))
             IN o \o [i \in DOMAIN im |-> im[i] \o "_com"]
JNames(d) == Order({d.joints[i].name[1] : i \in {i \in DOMAIN d.joints : d.joints[i].type[1] \in Movable}})
RootOf(d) == CHOOSE x \in Roots(d) : TRUE

Docs == UNION {{MkDoc(s, t, a, o, i) : t \in [DOMAIN s -> JTypes], a \in [DOMAIN s -> Axes],
                                       o \in [DOMAIN s -> Origins], i \in Inertials[Len(s)]} : s \in Shapes}

Mod == "a"
M == ms[Mod]

Init ==
  /\ nums = <<>>
  /\ op = "load"
  /\ \E d \in Docs : \* fixed joints have no axis that could matter
       /\ \A i \in DOMAIN d.joints : d.joints[i].type[1] = "fixed" => d.joints[i].axis = (CHOOSE x \in Axes : TRUE)
       /\ WellFormed(d)
       /\ DirectoryOk(d, LNames(d), JNames(d), RootOf(d))
       /\ ms = (Mod :> (Complete(Build(d, LNames(d), JNames(d))) @@ [key |-> d]))

Spin(j) == M.link[M.jlink[j]].typ \in Spinning
Step(j) == IF Spin(j) THEN 1 ELSE U
Wrap(j, v) == IF Spin(j) THEN v % 4 ELSE IF v > MaxPris THEN 0 - MaxPris ELSE v

TurnJoint(j) == SetJoints(Mod, <<j - 1>>, <<Wrap(j, M.q[j] + Step(j))>>)
MoveBase(b) == SetBase(Mod, [tf |-> [R |-> RpyV(<<b[4], b[5], b[6]>>), p |-> <<b[1], b[2], b[3]>>], vec |-> b])

Next == \/ \E j \in DOMAIN M.q : TurnJoint(j) /\ op' = "joint"
        \/ \E b \in Bases : MoveBase(b) /\ op' = "base"

Spec == Init /\ [][Next]_vars
View == <<ms, nums>>

--------------------------------------------------------------------------------
(* the same robot elsewhere *)
At(j, dq) == Refresh([M EXCEPT !.q[j] = @ + dq])
WithBase(B) == Refresh([M EXCEPT !.base = B])
Links == DOMAIN M.link
Joints == DOMAIN M.q
(* exact central difference: twice the derivative                             *)
Up(j) == At(j, Step(j))
Dn(j) == At(j, 0 - Step(j))
Twice(v) == <<2 * v[1], 2 * v[2], 2 * v[3]>>
MTwice(A) == <<Twice(A[1]), Twice(A[2]), Twice(A[3])>>
(* the base with coordinate k changed by dv                                   *)
BaseAt(k, dv) == LET b == [M.bvec EXCEPT ![k] = @ + dv]
                 IN [R |-> RpyV(<<b[4], b[5], b[6]>>), p |-> <<b[1], b[2], b[3]>>]
BaseUp(k) == WithBase(BaseAt(k, IF k <= 3 THEN U ELSE 1))
BaseDn(k) == WithBase(BaseAt(k, 0 - (IF k <= 3 THEN U ELSE 1)))
Upright == M.bvec[5] = 0

(* rotation matrix of angular velocity w: derivative of R is Skew(w) R        *)
Skew(w) == << <<0, 0 - w[3], w[2]>>, <<w[3], 0, 0 - w[1]>>, <<0 - w[2], w[1], 0>> >>
MSub(A, B) == MAdd(A, MScale(0 - U, B))

(* K03 *)
TwistIsDerivative ==
  \A j \in Joints : LET u == Up(j) d == Dn(j) IN \A l \in Links :
    LET tw == Twist(M, M.pose, l, j) IN
    /\ VSub(u.pose[l].p, d.pose[l].p) = Twice(tw.v)
    /\ MSub(u.pose[l].R, d.pose[l].R) = MTwice(MM(Skew(tw.w), M.pose[l].R))      \* K04
    /\ ~Moves(M, j, l) => tw = Still /\ u.pose[l] = d.pose[l]
    /\ ~Spin(j) => tw.w = VZero

(* K04: roll, pitch, yaw axes: the twist of a change of roll, pitch or yaw    *)
RpyAxes ==
  \A r, y \in 0..3 : LET R == RpyV(<<r, 0, y>>) IN
    /\ MSub(RpyV(<<r + 1, 0, y>>), RpyV(<<r - 1, 0, y>>)) = MTwice(MM(Skew(RollAxis(R)), R))
    /\ MSub(RpyV(<<r, 1, y>>), RpyV(<<r, -1, y>>)) = MTwice(MM(Skew(PitchAxis(R)), R))
    /\ MSub(RpyV(<<r, 0, y + 1>>), RpyV(<<r, 0, y - 1>>)) = MTwice(MM(Skew(EZ), R))

(* K05: base columns, bases with pitch 0 *)
BaseColumns ==
  Upright =>
  \A k \in 1..6 : LET u == BaseUp(k) d == BaseDn(k) IN
    \A l \in Links : LET tw == BaseTwist(M, l, k) IN
      /\ VSub(u.pose[l].p, d.pose[l].p) = Twice(tw.v)
      /\ MSub(u.pose[l].R, d.pose[l].R) = MTwice(MM(Skew(tw.w), M.pose[l].R))

(* K01: moving the base moves everything rigidly; full turns change nothing   *)
BaseCovariant ==
  LET z == WithBase(TId) IN \A l \in Links : M.pose[l] = Compose(M.base, z.pose[l])
FullTurns == \A j \in Joints : Spin(j) => At(j, 4).pose = M.pose
(* a joint's motion leaves its own axis in place and turns nothing before it  *)
JointAxisFixed ==
  \A j \in Joints : LET c == M.jlink[j] e == M.link[c]
                        ax(m) == MV(m.pose[e.par].R, MV(e.org.R, e.axis)) IN
    /\ MV(M.pose[c].R, e.axis) = ax(M)
    /\ IF Spin(j) THEN Up(j).pose[c].p = M.pose[c].p ELSE Up(j).pose[c].R = M.pose[c].R
(* every link is joined to its parent by its fixed offset and joint motion    *)
Attached ==
  \A l \in Links : M.link[l].par # 0 =>
     LET r == Compose(TInv(M.pose[M.link[l].par]), M.pose[l]) IN
     IF M.link[l].typ \notin Movable THEN r = M.link[l].org
     ELSE Compose(TInv(M.link[l].org), r) = Motion(M.link[l], M.q)
RotationsProper ==
  \A l \in Links : LET R == M.pose[l].R IN MM(R, MT(R)) = MId /\ Cross(R[1], R[2]) = R[3]

(* K06: a link added anywhere *)
AddedRigid ==
  \A p \in Links : LET tf == [R |-> RpyV(<<1, 0, 1>>), p |-> <<U, 0, 0 - U>>]
                       x == Complete(AddTo([k \in DOMAIN M \ {"topo", "pose"} |-> M[k]], "new", p, tf))
                       n == Len(M.link) + 1 IN
    /\ x.pose[n] = Compose(M.pose[p], tf)
    /\ \A l \in Links : x.pose[l] = M.pose[l]
    /\ \A j \in Joints : /\ Moves(x, j, n) = Moves(M, j, p)
                         /\ \A l \in Links : Twist(x, x.pose, l, j) = Twist(M, M.pose, l, j)
    /\ TotalMass(x) = TotalMass(M) /\ Com(x) = Com(M) /\ Inertia(x) = Inertia(M)

(* K09 *)
ComIsMean ==
  VScale(TotalMass(M), Com(M)) =
    FoldLeft(LAMBDA a, i : VAdd(a, VScale(M.mass[i].m, VAdd(M.pose[M.mass[i].link].p, MV(M.pose[M.mass[i].link].R, M.mass[i].F.p)))),
             VZero, Idx(M.mass))
ComOfPoints ==      \* the mass points are also links of their own
  \A i \in DOMAIN M.mass : \E l \in Links : M.lname[l] = M.lname[M.mass[i].link] \o "_com" /\ M.pose[l].p = MassPoint(M, i)
ComDerivative ==
  \A j \in Joints : VSub(Com(Up(j)), Com(Dn(j))) = Twice(ComRate(M, j))
ComBaseDerivative ==
  Upright => \A k \in 1..6 : VSub(Com(BaseUp(k)), Com(BaseDn(k))) = Twice(ComBaseRate(M, k))

(* K10 *)
InertiaSymmetric == Inertia(M) = MT(Inertia(M))
PointTerm(x) == MSub(MScale(Dot(x, x), MId), Outer(x, x))
InertiaByOrigin ==      \* about the world origin, then moved to the center of mass
  LET o == FoldLeft(LAMBDA a, i :
              LET e == M.mass[i] R == M.pose[e.link].R
              IN MAdd(a, MAdd(MM(MM(R, MM(e.F.R, MM(e.I, MT(e.F.R)))), MT(R)), MScale(e.m, PointTerm(MassPoint(M, i))))),
              MZero, Idx(M.mass))
  IN Inertia(M) = MSub(o, MScale(TotalMass(M), PointTerm(Com(M))))
InertiaCovariant ==
  LET z == WithBase(TId) IN Inertia(M) = MM(M.base.R, MM(Inertia(z), MT(M.base.R)))

(* K15 *)
DistanceDerivative ==
  /\ LET z == WithBase(TId) IN \A a, b \in Links :
       /\ SqDist(M, a, b) = SqDist(M, b, a) /\ SqDist(M, a, b) >= 0
       /\ SqDist(z, a, b) = SqDist(M, a, b)       \* the base does not matter
  /\ \A j \in Joints : LET u == Up(j) d == Dn(j) IN \A a, b \in Links :
       LET g == SqGrad(M, a, b, j) IN
       /\ SqDist(u, a, b) - SqDist(d, a, b) = 2 * g
       /\ (a = b \/ (Moves(M, j, a) = Moves(M, j, b))) => g = 0

(* K16: forces 1 and 3, so that the total is 8 *)
BalanceDerivative ==
  LET f == <<U, 3 * U>> IN
  /\ Balance(M, <<>>, <<>>) = Com(M)
  /\ \A a \in Links : VScale(8 * U, Balance(M, <<a, 1>>, f)) =
        VAdd(VScale(4 * U, Com(M)), VAdd(M.pose[a].p, VScale(3 * U, M.pose[1].p)))
  /\ \A j \in Joints : LET u == Up(j) d == Dn(j) IN \A a \in Links :
        VSub(Balance(u, <<a, 1>>, f), Balance(d, <<a, 1>>, f)) = Twice(BalanceRate(M, <<a, 1>>, f, j))
  /\ Upright =>
     \A k \in 1..6 : LET u == BaseUp(k) d == BaseDn(k) IN \A a \in {2, Len(M.link)} :
        VSub(Balance(u, <<a, 1>>, f), Balance(d, <<a, 1>>, f)) = Twice(BalanceBaseRate(M, <<a, 1>>, f, k))

(* a canary: this one is false and TLC must say so *)
Canary == \A l \in Links : M.pose[l].p[1] < 2 * U

(* Mistakes that the invariants must find (substituted for the operators they *)
(* are named after, see MISTAKES in tools/plan.py)                            *)
RelSwapped(e, q) == IF e.typ \in Movable THEN Compose(Motion(e, q), e.org) ELSE e.org
TwistOfParent(m, pose, l, j) ==
  IF ~Moves(m, j, l) THEN Still
  ELSE LET c == m.jlink[j]
           e == m.link[c]
           a == MV(pose[e.par].R, MV(e.org.R, e.axis))
       IN IF e.typ = "prismatic" THEN [v |-> a, w |-> VZero]
          ELSE [v |-> Cross(a, VSub(pose[l].p, pose[e.par].p)), w |-> a]
TwistLocalAxis(m, pose, l, j) ==
  IF ~Moves(m, j, l) THEN Still
  ELSE LET c == m.jlink[j]
           e == m.link[c]
           a == MV(pose[e.par].R, e.axis)
       IN IF e.typ = "prismatic" THEN [v |-> a, w |-> VZero]
          ELSE [v |-> Cross(a, VSub(pose[l].p, pose[c].p)), w |-> a]
RollAxisFixed(R) == EX
PitchAxisFixed(R) == EY
BaseTwistAtOrigin(m, i, k) ==
  IF k <= 3 THEN [v |-> Axis(k), w |-> VZero]
  ELSE LET B == m.base.R
           w == CASE k = 4 -> RollAxis(B) [] k = 5 -> PitchAxis(B) [] k = 6 -> EZ
       IN [v |-> Cross(w, m.pose[i].p), w |-> w]
NewEntryUnturned(m, par, tf) == [par |-> par, typ |-> "fixed", org |-> [R |-> MId, p |-> tf.p], axis |-> VZero, jid |-> 0, judge |-> "all"]
NewEntryOfGrandparent(m, par, tf) ==
  [par |-> IF m.link[par].par = 0 THEN par ELSE m.link[par].par, typ |-> "fixed", org |-> tf, axis |-> VZero, jid |-> 0, judge |-> "all"]
MassPointUnturned(m, i) == VAdd(m.pose[m.mass[i].link].p, m.mass[i].F.p)
ComUnweighted(m) == VDiv(VSum(LAMBDA i : MassPoint(m, i), Idx(m.mass)), U * Len(m.mass))
ComRateOfOrigins(m, j) ==
  VDiv(VSum(LAMBDA i : VScale(m.mass[i].m, Twist(m, m.pose, m.mass[i].link, j).v), Idx(m.mass)), TotalMass(m))
InertiaUnturned(m) ==
  LET c == Com(m)
      part(i) ==
        LET d  == VSub(MassPoint(m, i), c)
            Rw == m.pose[m.mass[i].link].R
        IN MAdd(MM(Rw, MM(m.mass[i].I, MT(Rw))), MScale(m.mass[i].m, PointTerm(d)))
  IN FoldLeft(LAMBDA acc, i : MAdd(acc, part(i)), MZero, Idx(m.mass))
InertiaOfOrigins(m) ==
  LET c == Com(m)
      part(i) ==
        LET d  == VSub(m.pose[m.mass[i].link].p, c)
            Rw == MM(m.pose[m.mass[i].link].R, m.mass[i].F.R)
        IN MAdd(MM(Rw, MM(m.mass[i].I, MT(Rw))), MScale(m.mass[i].m, PointTerm(d)))
  IN FoldLeft(LAMBDA acc, i : MAdd(acc, part(i)), MZero, Idx(m.mass))
SqGradOneSided(m, a, b, j) ==
  Mul(Add(One, One), Dot(VSub(m.pose[a].p, m.pose[b].p), Twist(m, m.pose, a, j).v))
BalanceRateUnloaded(m, a, f, j) == ComRate(m, j)
BalanceBaseRateAtCom(m, a, f, k) == PointBaseTwist(m, Com(m), k)

ASSUME PrintT(<<"BASES", ToJson(Bases)>>)
(* the behaviours to be replayed on the real code *)
Emit == IF op = "load" THEN PrintT(<<"DOC", ToJson(M.key)>>) ELSE TRUE
=============================================================================
