----------------------------- MODULE TinyfkTrace -----------------------------
(* Trace validation: every event recorded from the real code must be a step   *)
(* of Tinyfk with exactly the answer that was observed.  Numbers are IEEE     *)
(* doubles (module Num); tolerances are stated here and nowhere else.         *)
EXTENDS Tinyfk, Answers, Num, Json, IOUtils

RZero == RInt(0)
ROne  == RInt(1)
RCosPitch(R) == RSqrt(RAdd(RMul(R[1][1], R[1][1]), RMul(R[2][1], R[2][1])))

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,       \* position in the trace
          seen     \* tag -> where a reference answer was observed, and in which state

xvars == <<ms, nums, l, seen>>

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Field(k, dflt) == IF k \in DOMAIN Ev THEN Ev[k] ELSE dflt

(* A judged answer; on disagreement say which one. *)
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", l, Ev.e, name>>) /\ FALSE
Note(name, x) == PrintT(<<"NOTE", l, name, x>>)

--------------------------------------------------------------------------------
(* Tolerances *)
Rat(n, d) == RDiv(RInt(n), RInt(d))
E9 == Rat(1, 1000000000)
E8 == Rat(1, 100000000)
E7 == Rat(1, 10000000)
E6 == Rat(1, 1000000)
Gimbal == Rat(87, 10000)           \* half a degree
Half   == Rat(1, 2)

Near(a, b, tol)  == RLe(RAbs(RSub(a, b)), tol)
VNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol) /\ Near(a[3], b[3], tol)
MNear(A, B, tol) == VNear(A[1], B[1], tol) /\ VNear(A[2], B[2], tol) /\ VNear(A[3], B[3], tol)

VMax(a) == RMax(RAbs(a[1]), RMax(RAbs(a[2]), RAbs(a[3])))
(* 1 + the largest coordinate in the model: lengths are judged relative to it *)
SizeOf(m) == FoldLeft(LAMBDA s, x : RMax(s, RMax(VMax(x.p), RZero)), ROne,
                      [i \in DOMAIN m.pose |-> m.pose[i]])
Size(m) == RAdd(ROne, SizeOf(m))

--------------------------------------------------------------------------------
(* Quaternions, only to read what the implementation reports *)
QMat(q) ==
  LET x == q[1] y == q[2] z == q[3] w == q[4]
      d(a) == RMul(RInt(2), a)
  IN << <<RSub(ROne, d(RAdd(RMul(y, y), RMul(z, z)))), d(RSub(RMul(x, y), RMul(z, w))), d(RAdd(RMul(x, z), RMul(y, w)))>>,
        <<d(RAdd(RMul(x, y), RMul(z, w))), RSub(ROne, d(RAdd(RMul(x, x), RMul(z, z)))), d(RSub(RMul(y, z), RMul(x, w)))>>,
        <<d(RSub(RMul(x, z), RMul(y, w))), d(RAdd(RMul(y, z), RMul(x, w))), RSub(ROne, d(RAdd(RMul(x, x), RMul(y, y))))>> >>
QNorm2(q) == RAdd(RAdd(RMul(q[1], q[1]), RMul(q[2], q[2])), RAdd(RMul(q[3], q[3]), RMul(q[4], q[4])))
QOk(q, R) == Near(QNorm2(q), ROne, E8) /\ MNear(QMat(q), R, E8)
QTf(p, q) == [R |-> QMat(q), p |-> p]

(* rate of the quaternion q under angular velocity w: half of (w,0)*q *)
QRate(w, q) ==
  LET v == <<q[1], q[2], q[3]>>
      u == VAdd(VScale(q[4], w), Cross(w, v))
  IN <<RMul(Half, u[1]), RMul(Half, u[2]), RMul(Half, u[3]), RMul(Half, RSub(RZero, Dot(w, v)))>>

--------------------------------------------------------------------------------
(* Roll, pitch, yaw of a rotation matrix: sines and cosines, pitch in +-90deg *)

HalfPi == RMul(Half, Rat(314159266, 100000000))
RpyTol(R) == IF RLt(CosPitch(R), Rat(46, 10000)) THEN Gimbal ELSE E7
RpyOk(rpy, R) ==
  /\ \A k \in 1..3 : RFinite(rpy[k])
  /\ RLe(RAbs(rpy[2]), HalfPi)
  /\ MNear(RpyV(rpy), R, RpyTol(R))

--------------------------------------------------------------------------------
(* Judging poses *)
PoseOk(m, i, o) ==           \* o: [p, q, rpy] observed for link index i
  LET j == m.link[i].judge IN
  IF j = "none" THEN TRUE
  ELSE /\ Ck(<<"position", m.lname[i]>>, VNear(o.p, m.pose[i].p, RMul(E9, Size(m))))
       /\ IF j = "position" THEN TRUE
          ELSE /\ Ck(<<"quaternion", m.lname[i]>>, QOk(o.q, m.pose[i].R))
               /\ Ck(<<"rpy", m.lname[i]>>, RpyOk(o.rpy, m.pose[i].R) /\ RpyOk(o.rpy2, m.pose[i].R))

(* one row of a batch: position and, if requested, orientation *)
RowDim(rot) == CASE rot = "none" -> 3 [] rot = "rpy" -> 6 [] rot = "xyzw" -> 7
Rot(row) == [k \in 1..(Len(row) - 3) |-> row[3 + k]]
RowOk(m, i, rot, row) ==
  LET j == m.link[i].judge IN
  IF j = "none" THEN TRUE
  ELSE /\ Ck(<<"position", m.lname[i]>>, VNear(row, m.pose[i].p, RMul(E9, Size(m))))
       /\ IF j = "position" THEN TRUE
          ELSE Ck(<<rot, m.lname[i]>>, CASE rot = "none" -> TRUE
                                        [] rot = "xyzw" -> QOk(Rot(row), m.pose[i].R)
                                        [] rot = "rpy" -> RpyOk(Rot(row), m.pose[i].R))

--------------------------------------------------------------------------------
(* Judging Jacobians.  The six base coordinates are position and canonical    *)
(* roll, pitch, yaw (pitch within +-90 degrees) of the base; a planar base    *)
(* has the first, second and last of them.                                    *)
BaseRegular(m) == RLt(Rat(5, 100), CosPitch(m.base.R))
LinkRegular(R) == RLt(Rat(5, 100), CosPitch(R))
LinkAway(R) == RLt(Rat(1, 100), CosPitch(R))         \* columns that are not differences of nearby poses

RotDim(rot) == RowDim(rot) - 3
Shape(J, rows, cols) == Len(J) = rows /\ \A r \in DOMAIN J : Len(J[r]) = cols

RotRowsOk(R, q, rot, J, c, w, tol, defined) ==
  CASE rot = "none" -> TRUE
    [] rot = "rpy" ->
         IF ~defined THEN TRUE
         ELSE VNear(VAdd(VAdd(VScale(J[4][c], RollAxis(R)), VScale(J[5][c], PitchAxis(R))),
                         VScale(J[6][c], EZ)), w, tol)
    [] rot = "xyzw" ->
         LET d == QRate(w, q) IN \A k \in 1..4 : Near(J[3 + k][c], d[k], tol)

ZeroCol(J, c) == \A r \in DOMAIN J : REq(J[r][c], RZero)

(* J: rows observed for link index i; q: its observed quaternion *)
JacOk(m, i, ids, rot, base, J, q) ==
  LET n == Len(ids)
      R == m.pose[i].R
      s == Size(m)
      co == Coords(base)
      joints == \A c \in 1..n :
          LET j  == ids[c] + 1
              tw == Twist(m, m.pose, i, j)
          IN IF ~Moves(m, j, i)
             THEN Ck(<<"unrelated joint column", m.jname[j], m.lname[i]>>, ZeroCol(J, c))
             ELSE /\ Ck(<<"joint position column", m.jname[j], m.lname[i]>>,
                        VNear(<<J[1][c], J[2][c], J[3][c]>>, tw.v, RMul(E8, s)))
                  /\ Ck(<<"joint rotation column", rot, m.jname[j], m.lname[i]>>,
                        RotRowsOk(R, q, rot, J, c, tw.w, E6, LinkAway(R)))
      bases == \A b \in DOMAIN co :
          LET k == co[b]
              tw == BaseTwist(m, i, k)
              tol == IF k <= 3 THEN E9 ELSE RMul(RInt(2), RMul(E6, s))
          IN IF k > 3 /\ ~BaseRegular(m) THEN TRUE ELSE
             /\ Ck(<<"base position column", k, m.lname[i]>>,
                   VNear(<<J[1][n + b], J[2][n + b], J[3][n + b]>>, tw.v, tol))
             /\ Ck(<<"base rotation column", rot, k, m.lname[i]>>,
                   IF k <= 3 THEN \A r \in 4..(3 + RotDim(rot)) : REq(J[r][n + b], RZero)
                   ELSE RotRowsOk(R, q, rot, J, n + b, tw.w, Rat(1, 10000), LinkRegular(R)))
  IN IF m.link[i].judge = "none" \/ (m.link[i].judge = "position" /\ rot # "none") THEN TRUE
     ELSE /\ Ck(<<"Jacobian shape", Len(J)>>, Shape(J, 3 + RotDim(rot), n + Len(co)))
          /\ joints
          /\ bases

--------------------------------------------------------------------------------
(* Mass properties *)
BaseTol(m) == RMul(RInt(2), RMul(E6, Size(m)))
ComTol(m) == RMul(E8, Size(m))
ComOk(m, o) == VNear(o, Com(m), ComTol(m))
ComJacOk(m, ids, base, J) ==
  LET n == Len(ids)
      co == Coords(base) IN
  /\ Ck("CoM Jacobian shape", Shape(J, 3, n + Len(co)))
  /\ \A c \in 1..n : Ck(<<"CoM joint column", m.jname[ids[c] + 1]>>,
        VNear(Col(J, c), ComRate(m, ids[c] + 1), ComTol(m)))
  /\ \A b \in DOMAIN co : LET k == co[b] IN IF k > 3 /\ ~BaseRegular(m) THEN TRUE ELSE
        Ck(<<"CoM base column", k>>, VNear(Col(J, n + b), ComBaseRate(m, k), BaseTol(m)))

InertiaTol(m) ==
  LET s == Size(m)
      big == Sum(LAMBDA i : RAdd(RMul(m.mass[i].m, RMul(s, s)),
                                 RMax(VMax(m.mass[i].I[1]), RMax(VMax(m.mass[i].I[2]), VMax(m.mass[i].I[3])))), Idx(m.mass))
  IN RMul(E8, RAdd(ROne, big))
InertiaOk(m, o) == MNear(o, Inertia(m), InertiaTol(m)) /\ MNear(o, MT(o), InertiaTol(m))

--------------------------------------------------------------------------------
(* Limits *)
Lim(m, j) == m.jlim[j]          \* optional limit element
PosLimOk(m, j, lo, hi) ==
  IF m.link[m.jlink[j]].typ = "continuous" THEN REq(lo, RSub(RZero, RInf)) /\ REq(hi, RInf)
  ELSE REq(lo, Opt(Lim(m, j)[1].lower, RZero)) /\ REq(hi, Opt(Lim(m, j)[1].upper, RZero))
VelLimOk(m, j, v) == REq(v, IF Has(Lim(m, j)) THEN Lim(m, j)[1].velocity[1] ELSE RInf)
EffLimOk(m, j, v) == REq(v, IF Has(Lim(m, j)) THEN Lim(m, j)[1].effort[1] ELSE RInf)

--------------------------------------------------------------------------------
(* Answers judged by comparison: the same question asked of another model in  *)
(* the same state (a fresh one, an undisturbed one, one that is alone, ...).  *)
(* The reference answer carries "probe: tag", the judged one "cmp: tag".      *)

Exact == Field("exact", TRUE)

(* b, the reference, may have fewer added links                               *)
SameState(a, b) == a[1] = b[1] /\ IsPrefix(b[2], a[2]) /\ a[3] = b[3] /\ a[4] = b[4]

Probed   == "probe" \in DOMAIN Ev
Compared == "cmp" \in DOMAIN Ev
Remember(m) ==
  seen' = IF Probed THEN [k \in DOMAIN seen \union {Ev.probe} |->
                             IF k = Ev.probe THEN [st |-> StateOf(m), at |-> l] ELSE seen[k]]
          ELSE seen

Rel9(a, b, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, RAdd(ROne, RMax(RAbs(a), RAbs(b))))) \/ a = b
RowAlike(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Rel9(a[i], b[i], tol)
MatAlike(A, B, tol) == Len(A) = Len(B) /\ \A i \in DOMAIN A : RowAlike(A[i], B[i], tol)

QNeg(q) == [k \in DOMAIN q |-> RSub(RZero, q[k])]
QSame(a, b) == RowAlike(a, b, E8) \/ (~Exact /\ RowAlike(QNeg(a), b, E8))
RpySame(a, b) == IF Exact THEN RowAlike(a, b, E8)
                 ELSE MNear(RpyV(a), RpyV(b), RpyTol(RpyV(b)))

PoseAlike(a, b) ==
  /\ Ck("same position", RowAlike(a.p, b.p, E9))
  /\ Ck("same quaternion", QSame(a.q, b.q))
  /\ Ck("same rpy", RpySame(a.rpy, b.rpy) /\ RpySame(a.rpy2, b.rpy2))

(* the same Jacobian; n joint columns, then base columns.  Quaternion rows    *)
(* follow the sign of the quaternion; rpy rows blow up at the singularity.    *)
JacAlike(J, K, n, rot, R, qa, qb) ==
  /\ Ck("same Jacobian shape", Len(J) = Len(K) /\ \A r \in DOMAIN J : Len(J[r]) = Len(K[r]))
  /\ \A r \in DOMAIN J : \A c \in DOMAIN J[r] :
       LET flip == ~Exact /\ rot = "xyzw" /\ r > 3 /\ ~RowAlike(qa, qb, E8)
           k == IF flip THEN RSub(RZero, K[r][c]) ELSE K[r][c]
           tol == IF c <= n /\ (r <= 3 \/ rot # "rpy") THEN E8
                  ELSE IF Exact THEN E6 ELSE Rat(1, 20000)
       IN IF ~Exact /\ rot = "rpy" /\ r > 3 /\ ~LinkRegular(R) THEN TRUE
          ELSE Ck(<<"same Jacobian", r, c>>, Rel9(J[r][c], k, tol))

(* Judge by comparison when the event asks for it, else absolutely; a         *)
(* reference answer is not judged.                                            *)
Judge(m, abs, alike(_, _)) ==
  IF Probed THEN TRUE
  ELSE IF Compared
  THEN LET r == seen[Ev.cmp] IN
       /\ Assert(SameState(StateOf(m), r.st), <<"HARNESS: reference in another state", l, r.at>>)
       /\ alike(Ev, Trace[r.at])
  ELSE abs

Ask(abs(_), alike(_, _)) ==
  /\ Judge(ms[Ev.h], abs(ms[Ev.h]), alike)
  /\ Remember(ms[Ev.h])
  /\ Query(Ev.h)

--------------------------------------------------------------------------------
(* Events *)

Keep == UNCHANGED seen

TBegin == IsEvent("Begin") /\ ms' = <<>> /\ nums' = <<>> /\ seen' = <<>>

TLoad ==
  /\ IsEvent("Load")
  /\ Keep
  /\ Ck(<<"accepted", Ev.ok, "expected", WellFormed(Ev.doc)>>, Ev.ok = WellFormed(Ev.doc))
  /\ IF Ev.ok
     THEN /\ Ck("directory", DirectoryOk(Ev.doc, Ev.lnames, Ev.jnames, Ev.root))
          /\ Ck("numbering", NumberedAlike(Ev.key, Ev.lnames, Ev.jnames))
          /\ Load(Ev.h, Ev.doc, Ev.key, Ev.lnames, Ev.jnames, Ev.root)
     ELSE RefuseLoad(Ev.doc)

(* Reading back an exported description: the same robot, numbered the same    *)
TExport ==
  /\ IsEvent("Export")
  /\ Keep
  /\ Ck("exported description is loaded", Ev.ok)
  /\ Ck("exported directory", DirectoryOk(Ev.doc, Ev.lnames, Ev.jnames, Ev.root))
  /\ Ck("exported numbering", NumberedAlike(Ev.key, Ev.lnames, Ev.jnames))
  /\ Load(Ev.h, Ev.doc, Ev.key, Ev.lnames, Ev.jnames, Ev.root)

TNames ==
  /\ IsEvent("Names")
  /\ Keep
  /\ LET m == ms[Ev.h] IN
     /\ Ck("link names", Ev.lnames = m.lname)
     /\ Ck("joint names", Ev.jnames = m.jname)
     /\ Ck("root", \E i \in DOMAIN m.link : m.link[i].typ = "root" /\ m.lname[i] = Ev.root)
  /\ Query(Ev.h)

TLookup ==
  /\ IsEvent("Lookup")
  /\ Keep
  /\ LET names == IF Ev.kind = "link" THEN ms[Ev.h].lname ELSE ms[Ev.h].jname
         known == \A i \in DOMAIN Ev.names : Ev.names[i] \in Range(names)
     IN /\ Ck("lookup outcome", Ev.ok = known)
        /\ IF ~Ev.ok THEN TRUE
           ELSE /\ Ck("number of ids", Len(Ev.ids) = Len(Ev.names))
                /\ \A i \in DOMAIN Ev.ids :
                     Ck("id", Ev.ids[i] + 1 \in DOMAIN names /\ names[Ev.ids[i] + 1] = Ev.names[i])
  /\ Query(Ev.h)

BaseSix(v) == [tf |-> [R |-> RpyV(<<v[4], v[5], v[6]>>), p |-> <<v[1], v[2], v[3]>>], vec |-> v]
(* the base pose that a batch row or a configuration vector denotes           *)
BaseOf(base, b) == IF base = "planar" THEN BaseSix(<<b[1], b[2], RZero, RZero, RZero, b[3]>>) ELSE BaseSix(b)

TSetJoints == IsEvent("SetJoints") /\ Keep /\ SetJoints(Ev.h, Ev.ids, Ev.vals)
TReset     == IsEvent("Reset") /\ Keep /\ Reset(Ev.h)
TSetBase   == IsEvent("SetBase") /\ Keep /\
                 IF Ev.kind = "rpy" THEN SetBase(Ev.h, BaseSix(Ev.p \o Ev.r))
                 ELSE SetBase(Ev.h, [tf |-> QTf(Ev.p, Ev.r), vec |-> <<>>])
TClear     == IsEvent("Clear") /\ Keep /\ Query(Ev.h)
TSetQ      == IsEvent("SetQ") /\ Keep /\
                 IF Ev.base = "fixed" THEN SetJoints(Ev.h, Ev.ids, Ev.vals)
                 ELSE SetBoth(Ev.h, Ev.ids, Ev.vals, BaseOf(Ev.base, Ev.b))

JointValues(m) == /\ Ck("number of joint values", Len(Ev.vals) = Len(Ev.ids))
                  /\ Ck("joint values", \A i \in DOMAIN Ev.vals : REq(Ev.vals[i], m.q[Ev.ids[i] + 1]))
TGetQ ==
  /\ IsEvent("GetQ")
  /\ Ask(LAMBDA m : /\ JointValues(m)
                    /\ Ck("base position", VNear(Ev.base.p, m.base.p, RZero))
                    /\ Ck("base rotation", QOk(Ev.base.q, m.base.R)),
         LAMBDA a, b : Ck("same joint values", a.vals = b.vals) /\ PoseAlike(a.base, b.base))

(* reading a configuration vector: joint values, then the base as it was set  *)
TGetQVec ==
  /\ IsEvent("GetQVec")
  /\ Ask(LAMBDA m :
           LET n == Len(Ev.ids)
               co == Coords(Ev.base)
           IN /\ Ck("length", Len(Ev.v) = n + Len(co))
              /\ Ck("joint values", \A i \in 1..n : REq(Ev.v[i], m.q[Ev.ids[i] + 1]))
              /\ Ck("base pose", \A b \in DOMAIN co : REq(Ev.v[n + b], m.bvec[co[b]])),
         LAMBDA a, b : Ck("same configuration", RowAlike(a.v, b.v, RZero)))

TPose ==
  /\ IsEvent("Pose")
  /\ Ask(LAMBDA m : \A i \in DOMAIN Ev.links : PoseOk(m, Ev.links[i] + 1, Ev.poses[i]),
         LAMBDA a, b : /\ Ck("same links", a.links = b.links)
                       /\ \A i \in DOMAIN a.poses : PoseAlike(a.poses[i], b.poses[i]))

TJac ==
  /\ IsEvent("Jac")
  /\ Ask(LAMBDA m : JacOk(m, Ev.link + 1, Ev.ids, Ev.rot, Ev.base, Ev.J, Ev.q),
         LAMBDA a, b : JacAlike(a.J, b.J, Len(a.ids), a.rot, QMat(b.q), a.q, b.q))

TMass ==
  /\ IsEvent("Mass")
  /\ Ask(LAMBDA m : Ck("total mass", Near(Ev.v, TotalMass(m), RMul(E9, RAdd(ROne, TotalMass(m))))),
         LAMBDA a, b : Ck("same total mass", Rel9(a.v, b.v, E9)))
TCom ==
  /\ IsEvent("Com")
  /\ Ask(LAMBDA m : Ck("center of mass", ComOk(m, Ev.v)),
         LAMBDA a, b : Ck("same center of mass", RowAlike(a.v, b.v, E8)))
TComJac ==
  /\ IsEvent("ComJac")
  /\ Ask(LAMBDA m : ComJacOk(m, Ev.ids, Ev.base, Ev.J),
         LAMBDA a, b : Ck("same CoM Jacobian", MatAlike(a.J, b.J, IF Exact THEN E6 ELSE Rat(1, 100000))))
TInertia ==
  /\ IsEvent("Inertia")
  /\ Ask(LAMBDA m : Ck("inertia", InertiaOk(m, Ev.I)),
         LAMBDA a, b : Ck("same inertia", MatAlike(a.I, b.I, E8)))
(* one call that sets joint values and then asks                              *)
TInertiaQ ==
  /\ IsEvent("InertiaQ")
  /\ SetJoints(Ev.h, Ev.ids, Ev.vals)
  /\ LET m == ms'[Ev.h] IN
     /\ Judge(m, Ck("inertia", InertiaOk(m, Ev.I)),
              LAMBDA a, b : Ck("same inertia", MatAlike(a.I, b.I, E8)))
     /\ Remember(m)

TLimits ==
  /\ IsEvent("Limits")
  /\ Ask(LAMBDA m :
         /\ Ck("limit counts", Len(Ev.pos) = Len(Ev.ids) /\ Len(Ev.vel) = Len(Ev.ids) /\ Len(Ev.eff) = Len(Ev.ids))
         /\ \A i \in DOMAIN Ev.ids : LET j == Ev.ids[i] + 1 IN
              /\ Ck(<<"position limit", m.jname[j]>>, PosLimOk(m, j, Ev.pos[i][1], Ev.pos[i][2]))
              /\ Ck(<<"velocity limit", m.jname[j]>>, VelLimOk(m, j, Ev.vel[i]))
              /\ Ck(<<"effort limit", m.jname[j]>>, EffLimOk(m, j, Ev.eff[i])),
         LAMBDA a, b : Ck("same limits", a.pos = b.pos /\ a.vel = b.vel /\ a.eff = b.eff))
TPosLimits ==
  /\ IsEvent("PosLimits")
  /\ Ask(LAMBDA m :
         /\ Ck("limit count", Len(Ev.pos) = Len(Ev.ids))
         /\ \A i \in DOMAIN Ev.ids : LET j == Ev.ids[i] + 1 IN
              Ck(<<"position limit", m.jname[j]>>,
                 IF Ev.pos[i] = <<>> THEN m.link[m.jlink[j]].typ = "continuous"
                 ELSE PosLimOk(m, j, Ev.pos[i][1], Ev.pos[i][2])),
         LAMBDA a, b : Ck("same limits", a.pos = b.pos))

TAdd ==
  /\ IsEvent("Add")
  /\ Keep
  /\ Ck("addition outcome", Ev.ok = (Ev.name \notin Range(ms[Ev.h].lname)))
  /\ IF Ev.ok
     THEN /\ Ck("id of the new link", Field("id", Len(ms[Ev.h].link)) = Len(ms[Ev.h].link))
          /\ AddLink(Ev.h, Ev.name, Ev.parent,
                  IF Ev.kind = "rpy" THEN [R |-> RpyV(Ev.r), p |-> Ev.p] ELSE QTf(Ev.p, Ev.r))
     ELSE RefuseAdd(Ev.h, Ev.name)

(* arguments that do not fit together                                         *)
TMisfit ==
  /\ IsEvent("Misfit")
  /\ Keep
  /\ LET needed == CASE Ev.call = "forces" -> Len(Ev.alinks) [] Ev.call = "addpos" -> 3 [] OTHER -> Len(Ev.ids) + Len(Coords(Ev.base))
     IN /\ Assert(\E w \in DOMAIN Ev.widths : Ev.widths[w] # needed, <<"HARNESS: arguments that fit", l>>)
        /\ Ck(<<"refused", Ev.call, Ev.base>>, ~Ev.ok)
        /\ RefuseMisfit(Ev.h, Ev.widths, needed)

TCopy    == IsEvent("Copy") /\ Keep /\ Ck("copy outcome", Ev.ok) /\ Copy(Ev.h, Ev.h2)
TDestroy == IsEvent("Destroy") /\ Keep /\ Destroy(Ev.h)

--------------------------------------------------------------------------------
(* Batched calls.  Each row w sets the listed joints (and the base); the      *)
(* answer for it is that of the model in that configuration; the model is     *)
(* left in the last one.                                                      *)
WithRow(m, w) ==
  LET q == Assign(m.q, Ev.ids, Ev.qs[w])
  IN IF Ev.base = "fixed" THEN Refresh([m EXCEPT !.q = q])
     ELSE LET b == BaseOf(Ev.base, Ev.bs[w])
          IN Refresh([m EXCEPT !.q = q, !.base = b.tf, !.bvec = b.vec])
Rows(m) ==                 \* the model after each row
  FoldLeft(LAMBDA acc, w : Append(acc, TLCEval(WithRow(IF w = 1 THEN m ELSE acc[w - 1], w))), <<>>, [w \in DOMAIN Ev.qs |-> w])

Batch(judge(_, _)) ==    \* judge(row number, model)
  LET rows == Rows(ms[Ev.h])
  IN /\ \A w \in DOMAIN rows : judge(w, rows[w])
     /\ IF rows = <<>> THEN UNCHANGED ms ELSE ms' = [ms EXCEPT ![Ev.h] = rows[Len(rows)]]
     /\ UNCHANGED nums

Block(M, from, n) == [r \in 1..n |-> M[from + r]]
Pick(row, n, base) ==      \* columns of a floating-base row that the base convention keeps
  [c \in 1..(n + Len(Coords(base))) |-> IF c <= n THEN row[c] ELSE row[n + Coords(base)[c - n]]]

(* a batch answer against the answers of individual calls on another model    *)
RefsOk(w, i, m) ==
  LET nl   == Len(Ev.links)
      d    == RowDim(Ev.rot)
      n    == Len(Ev.ids)
      row  == Ev.P[(w - 1) * nl + i]
      pr   == seen[Ev.refs[w][i][1]]
      p    == Trace[pr.at].poses[1]
      want == p.p \o (CASE Ev.rot = "none" -> <<>> [] Ev.rot = "rpy" -> p.rpy [] Ev.rot = "xyzw" -> p.q)
  IN /\ Assert(SameState(StateOf(m), pr.st) /\ Trace[pr.at].links[1] = Ev.links[i],
               <<"HARNESS: reference in another state", l, pr.at>>)
     /\ Ck(<<"row equals the individual evaluation", w, i>>, RowAlike(row, want, E9))
     /\ IF ~Ev.jac THEN TRUE
        ELSE LET jr == seen[Ev.refs[w][i][2]]
                 K  == Trace[jr.at].J
                 B  == Block(Ev.J, ((w - 1) * nl + (i - 1)) * d, d)
             IN /\ Assert(SameState(StateOf(m), jr.st), <<"HARNESS: reference in another state", l, jr.at>>)
                /\ Ck(<<"Jacobian block equals the individual evaluation", w, i>>,
                      MatAlike(B, [r \in DOMAIN K |-> Pick(K[r], n, Ev.base)], E6))

TSolve ==
  /\ IsEvent("Solve")
  /\ LET nl == Len(Ev.links)
         d  == RowDim(Ev.rot)
         nw == Len(Ev.qs)
         nc == Len(Ev.ids) + Len(Coords(Ev.base))
         shape == /\ Ck("shape of the pose rows", Shape(Ev.P, nw * nl, d) /\ Ev.Pshape = <<nw * nl, d>>)
                  /\ IF ~Ev.jac THEN TRUE ELSE
                     Ck("shape of the Jacobian", Shape(Ev.J, nw * nl * d, nc) /\ Ev.Jshape = <<nw * nl * d, nc>>)
         refs == "refs" \in DOMAIN Ev
         one(w, m) ==
           IF refs THEN \A i \in 1..nl : RefsOk(w, i, m)
           ELSE IF Probed \/ Compared THEN TRUE
           ELSE \A i \in 1..nl :
              LET row == Ev.P[(w - 1) * nl + i] IN
              /\ RowOk(m, Ev.links[i] + 1, Ev.rot, row)
              /\ IF ~Ev.jac THEN TRUE
                 ELSE JacOk(m, Ev.links[i] + 1, Ev.ids, Ev.rot, Ev.base,
                            Block(Ev.J, ((w - 1) * nl + (i - 1)) * d, d), Rot(row))
     IN /\ IF Probed THEN TRUE ELSE shape
        /\ Batch(one)
        /\ Judge(ms'[Ev.h], TRUE, LAMBDA a, b :
              /\ Ck("same poses", MatAlike(a.P, b.P, E8))
              /\ IF Ev.jac THEN Ck("same Jacobians", MatAlike(a.J, b.J, E6)) ELSE TRUE)
        /\ Remember(ms'[Ev.h])

TSolveCom ==
  /\ IsEvent("SolveCom")
  /\ LET nw == Len(Ev.qs)
         n  == Len(Ev.ids)
         co == Coords(Ev.base)
         a  == [i \in DOMAIN Ev.alinks |-> Ev.alinks[i] + 1]
         one(w, m) ==
           IF Probed \/ Compared THEN TRUE ELSE
           /\ Ck(<<"balance point", w>>, VNear(Ev.P[w], Balance(m, a, Ev.forces), ComTol(m)))
           /\ IF ~Ev.jac THEN TRUE ELSE
              LET J == Block(Ev.J, 3 * (w - 1), 3) IN
              /\ \A c \in 1..n : Ck(<<"balance joint column", w, c>>,
                     VNear(Col(J, c), BalanceRate(m, a, Ev.forces, Ev.ids[c] + 1), ComTol(m)))
              /\ \A b \in DOMAIN co : IF co[b] > 3 /\ ~BaseRegular(m) THEN TRUE ELSE
                   Ck(<<"balance base column", w, co[b]>>,
                      VNear(Col(J, n + b), BalanceBaseRate(m, a, Ev.forces, co[b]), BaseTol(m)))
     IN /\ IF Probed THEN TRUE ELSE
             /\ Ck("shape of the balance points", Shape(Ev.P, nw, 3) /\ Ev.Pshape = <<nw, 3>>)
             /\ IF ~Ev.jac THEN TRUE ELSE Ck("shape of the balance Jacobian", Shape(Ev.J, 3 * nw, n + Len(co)) /\ Ev.Jshape = <<3 * nw, n + Len(co)>>)
        /\ Batch(one)
        /\ Judge(ms'[Ev.h], TRUE, LAMBDA x, y :
              /\ Ck("same balance points", MatAlike(x.P, y.P, E8))
              /\ IF Ev.jac THEN Ck("same balance Jacobians", MatAlike(x.J, y.J, E6)) ELSE TRUE)
        /\ Remember(ms'[Ev.h])

TSqDist ==
  /\ IsEvent("SqDist")
  /\ LET nw == Len(Ev.qs)
         np == Len(Ev.pairs)
         n  == Len(Ev.ids)
         co == Coords(Ev.base)
         one(w, m) ==
           IF Probed \/ Compared THEN TRUE ELSE
           LET tol == RMul(E8, RMul(Size(m), Size(m))) IN
           \A i \in 1..np :
             LET a == Ev.pairs[i][1] + 1
                 b == Ev.pairs[i][2] + 1
                 at == (w - 1) * np + i
             IN /\ Ck(<<"squared distance", w, i>>, Near(Ev.V[at], SqDist(m, a, b), tol))
                /\ IF a = b THEN Ck(<<"distance to itself", w, i>>, REq(Ev.V[at], RZero)) ELSE TRUE
                /\ IF ~Ev.jac THEN TRUE ELSE
                   /\ \A c \in 1..n : Ck(<<"gradient", w, i, c>>,
                          Near(Ev.J[at][c], SqGrad(m, a, b, Ev.ids[c] + 1), tol))
                   /\ \A c \in DOMAIN co : IF co[c] > 3 /\ ~BaseRegular(m) THEN TRUE ELSE
                        Ck(<<"base gradient", w, i, co[c]>>,
                           RLe(RAbs(Ev.J[at][n + c]), RMul(BaseTol(m), Size(m))))
                   /\ IF a = b THEN Ck("gradient to itself", \A c \in DOMAIN Ev.J[at] : REq(Ev.J[at][c], RZero)) ELSE TRUE
     IN /\ IF Probed THEN TRUE ELSE
             /\ Ck("number of distances", Len(Ev.V) = nw * np)
             /\ IF Ev.jac THEN Ck("shape of the gradients", Shape(Ev.J, nw * np, n + Len(co))) ELSE TRUE
        /\ Batch(one)
        /\ Judge(ms'[Ev.h], TRUE, LAMBDA x, y :
              /\ Ck("same distances", RowAlike(x.V, y.V, E8))
              /\ IF Ev.jac THEN Ck("same gradients", MatAlike(x.J, y.J, E6)) ELSE TRUE)
        /\ Remember(ms'[Ev.h])

--------------------------------------------------------------------------------
(* K25: at the end of every round of the same calls nothing more is held than *)
(* at the end of the one before.  (In the first two, what the process sets up *)
(* once may come to be.)  The models that exist are those that are in use.    *)
\* a chain of any length is valid, unless it is closed to a loop; it is dropped at once
TChain == IsEvent("Chain") /\ UNCHANGED <<tvars, seen>> /\ Ck("chain", Ev.ok = (Ev.kind # "loop"))

Slack == 8000

TMem ==
  /\ IsEvent("Mem")
  /\ UNCHANGED tvars
  /\ IF "objects" \in DOMAIN Ev THEN Ck("models that exist", Ev.objects = Cardinality(Live)) ELSE TRUE
  /\ IF "held" \in DOMAIN Ev
     THEN /\ Ck(<<"given back", Ev.held>>, Ev.round > 2 /\ Live = {} => \A i \in 1..2 : Ev.held[i] <= seen["held"][i])
          /\ seen' = [k \in DOMAIN seen \union {"held"} |-> IF k = "held" THEN Ev.held ELSE seen[k]]
     ELSE IF "bytes" \in DOMAIN Ev     \* of the whole interpreter: only what adds up call by call shows
     THEN /\ Ck(<<"given back, of bytes", Ev.bytes>>, Ev.round > 2 /\ Live = {} => Ev.bytes <= seen["held"][1] + Slack)
          /\ seen' = [k \in DOMAIN seen \union {"held"} |-> IF k = "held" THEN <<Ev.bytes>> ELSE seen[k]]
     ELSE UNCHANGED seen

--------------------------------------------------------------------------------
TraceInit == TinyfkInit /\ l = 1 /\ seen = <<>>
TraceNext ==
  \/ TBegin \/ TLoad \/ TExport \/ TNames \/ TLookup
  \/ TSetJoints \/ TReset \/ TSetBase \/ TClear \/ TSetQ
  \/ TGetQ \/ TGetQVec \/ TPose \/ TJac \/ TMass \/ TCom \/ TComJac \/ TInertia \/ TInertiaQ
  \/ TLimits \/ TPosLimits \/ TAdd \/ TMisfit \/ TCopy \/ TDestroy
  \/ TSolve \/ TSolveCom \/ TSqDist \/ TMem \/ TChain
  \* no step for "Crash", "Hang": a call that does not return is not a behaviour

TraceSpec == TraceInit /\ [][TraceNext]_xvars

TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ PrintT(<<"STOPPED", TLCGet("stats").diameter, "of", Len(Trace)>>) /\ FALSE
=============================================================================
