------------------------------- MODULE Robot -------------------------------
(* What a robot description means, which descriptions are valid, and what     *)
(* every query must answer.  Pure functions; no state here.                   *)
(*                                                                            *)
(* A description ("doc") is the content of a URDF file, not its spelling:     *)
(*   [syntax, robot, version, materials, links, joints]                       *)
(* with optional parts as sequences of length 0 or 1.                         *)
EXTENDS Geom, Integers, Sequences, FiniteSets, SequencesExt, TLC

Opt(s, dflt) == IF s = <<>> THEN dflt ELSE s[1]
Has(s)       == s # <<>>

--------------------------------------------------------------------------------
(* Validity *)

Movable   == {"revolute", "continuous", "prismatic"}
Supported == Movable \union {"fixed"}
Spinning  == {"revolute", "continuous"}

LinkNames(doc)  == {doc.links[i].name : i \in DOMAIN doc.links}
JointNames(doc) == {Opt(doc.joints[i].name, "") : i \in DOMAIN doc.joints}

LimitOk(j) ==
  /\ j.type[1] \in {"revolute", "prismatic"} => Has(j.limit)
  /\ Has(j.limit) => Has(j.limit[1].effort) /\ Has(j.limit[1].velocity)

JointOk(doc, j) ==
  /\ ~j.lex                                       \* no malformed number
  /\ Has(j.name)
  /\ Has(j.type) /\ j.type[1] \in Supported
  /\ Has(j.parent) /\ j.parent[1] \in LinkNames(doc)
  /\ Has(j.child) /\ j.child[1] \in LinkNames(doc)
  /\ LimitOk(j)

(* The links reachable from a set of links along joints. *)
RECURSIVE Reach(_, _)
Reach(doc, S) ==
  LET T == S \union {Opt(doc.joints[i].child, "") :
                       i \in {i \in DOMAIN doc.joints : Opt(doc.joints[i].parent, "") \in S}}
  IN IF T = S THEN S ELSE Reach(doc, T)

Children(doc) == {Opt(doc.joints[i].child, "") : i \in DOMAIN doc.joints}
Roots(doc)    == LinkNames(doc) \ Children(doc)

IsTree(doc) ==
  /\ Cardinality(Children(doc)) = Len(doc.joints)     \* no link with two parents
  /\ Cardinality(Roots(doc)) = 1
  /\ Reach(doc, Roots(doc)) = LinkNames(doc)          \* no detached cycle

WellFormed(doc) ==
  /\ doc.syntax = "ok"
  /\ doc.robot
  /\ doc.version \in {"none", "1.0"}
  /\ Cardinality(Range(doc.materials)) = Len(doc.materials)
  /\ doc.links # <<>>
  /\ doc.unnamed = 0
  /\ Cardinality(LinkNames(doc)) = Len(doc.links)
  /\ Cardinality(JointNames(doc)) = Len(doc.joints)
  /\ \A i \in DOMAIN doc.joints : JointOk(doc, doc.joints[i])
  /\ IsTree(doc)

--------------------------------------------------------------------------------
(* Defaults *)

OriginOf(o) ==    \* o: optional <origin>
  IF o = <<>> THEN TId
  ELSE [R |-> IF o[1].rpy = <<>> THEN MId ELSE RpyV(o[1].rpy[1]),
        p |-> IF o[1].xyz = <<>> THEN VZero ELSE o[1].xyz[1]]

AxisOf(j) == IF j.axis = <<>> THEN EX ELSE j.axis[1]

--------------------------------------------------------------------------------
(* The model built from a valid description, given the order in which the     *)
(* implementation numbered the links and joints (any order is allowed, see    *)
(* DirectoryOk).  Links and joints are indexed from 1 here, id = index - 1.   *)
(* Entries beyond the declared links are the per-link mass points "<link>_com"*)

DirectoryOk(doc, lnames, jnames, root) ==
  /\ IsInjective(lnames)
  /\ LinkNames(doc) \subseteq Range(lnames)
  /\ Len(lnames) - Len(doc.links) <= Cardinality({i \in DOMAIN doc.links : Has(doc.links[i].inertial)})
  /\ IsInjective(jnames)
  /\ Range(jnames) = {Opt(doc.joints[i].name, "") :
                        i \in {i \in DOMAIN doc.joints : doc.joints[i].type[1] \in Movable}}
  /\ root \in Roots(doc)

Build(doc, lnames, jnames) ==
  LET li == [n \in LinkNames(doc) |-> CHOOSE i \in DOMAIN doc.links : doc.links[i].name = n]
      pj == [n \in LinkNames(doc) |-> {i \in DOMAIN doc.joints : doc.joints[i].child[1] = n}]
      jn == [n \in JointNames(doc) |-> CHOOSE i \in DOMAIN doc.joints : doc.joints[i].name[1] = n]
      inertials == {n \in LinkNames(doc) : Has(doc.links[li[n]].inertial)}
      declared(n) == n \in LinkNames(doc)
      ix == [n \in Range(lnames) |-> CHOOSE i \in DOMAIN lnames : lnames[i] = n]
      ji == [n \in Range(jnames) |-> CHOOSE i \in DOMAIN jnames : jnames[i] = n]
      comOf(n) == {k \in inertials : k \o "_com" = n}
      Entry(n) ==
        IF declared(n) THEN
          IF pj[n] = {} THEN [par |-> 0, typ |-> "root", org |-> TId, axis |-> VZero, jid |-> 0, judge |-> "all"]
          ELSE LET j == doc.joints[CHOOSE i \in pj[n] : TRUE]
               IN [par |-> ix[j.parent[1]], typ |-> j.type[1], org |-> OriginOf(j.origin), axis |-> AxisOf(j),
                   jid |-> IF j.type[1] \in Movable THEN ji[j.name[1]] ELSE 0, judge |-> "all"]
        ELSE IF comOf(n) = {} THEN
          [par |-> 0, typ |-> "opaque", org |-> TId, axis |-> VZero, jid |-> 0, judge |-> "none"]
        ELSE LET k == CHOOSE k \in comOf(n) : TRUE
                 o == doc.links[li[k]].inertial[1].origin
             IN [par |-> ix[k], typ |-> "fixed", org |-> [R |-> MId, p |-> OriginOf(o).p], axis |-> VZero, jid |-> 0,
                 judge |-> IF o = <<>> \/ o[1].rpy = <<>> THEN "all" ELSE "position"]
      mass(i) == LET it == doc.links[li[lnames[i]]].inertial[1]
                 IN [link |-> i, m |-> it.mass, F |-> OriginOf(it.origin),
                     I |-> << <<it.I[1], it.I[2], it.I[3]>>, <<it.I[2], it.I[4], it.I[5]>>, <<it.I[3], it.I[5], it.I[6]>> >>]
      masses == {i \in DOMAIN lnames : declared(lnames[i]) /\ lnames[i] \in inertials}
  IN [ lname |-> lnames,
       link  |-> [i \in DOMAIN lnames |-> Entry(lnames[i])],
       jname |-> jnames,
       jlink |-> [i \in DOMAIN jnames |-> ix[doc.joints[jn[jnames[i]]].child[1]]],
       jlim  |-> [i \in DOMAIN jnames |-> doc.joints[jn[jnames[i]]].limit],
       mass  |-> [i \in 1..Cardinality(masses) |-> mass(SetToSortSeq(masses, <)[i])],
       q     |-> [i \in DOMAIN jnames |-> Zero],
       base  |-> TId,
       bvec  |-> <<Zero, Zero, Zero, Zero, Zero, Zero>>,
       adds  |-> <<>> ]

(* parents before children *)
RECURSIVE TopoFrom(_, _, _)
TopoFrom(link, done, seq) ==
  LET next == {i \in DOMAIN link : i \notin done /\ (link[i].par = 0 \/ link[i].par \in done)}
  IN IF next = {} THEN seq
     ELSE TopoFrom(link, done \union next, seq \o SetToSortSeq(next, <))
Topo(link) == TopoFrom(link, {}, <<>>)

--------------------------------------------------------------------------------
(* Forward kinematics *)

Motion(e, q) ==
  IF e.typ \in Spinning THEN [R |-> RotAxis(e.axis, q[e.jid]), p |-> VZero]
  ELSE IF e.typ = "prismatic" THEN [R |-> MId, p |-> VScale(q[e.jid], e.axis)]
  ELSE TId

Rel(e, q) == IF e.typ \in Movable THEN Compose(e.org, Motion(e, q)) ELSE e.org

(* all link poses, given a parents-first order *)
PosesIn(link, q, base, topo) ==
  FoldLeft(LAMBDA acc, i : [acc EXCEPT ![i] = IF link[i].par = 0 THEN base
                                              ELSE Compose(acc[link[i].par], Rel(link[i], q))],
           [i \in DOMAIN link |-> TId], topo)

(* the path from the root to a link, as a set; the joints on it move the link *)
RECURSIVE PathTo(_, _)
PathTo(link, i) == {i} \union (IF link[i].par = 0 THEN {} ELSE PathTo(link, link[i].par))

Moves(m, j, l) == m.jlink[j] \in PathTo(m.link, l)

--------------------------------------------------------------------------------
(* Derivatives: joint j moves link l with this linear and angular velocity    *)

Still == [v |-> VZero, w |-> VZero]

Twist(m, pose, l, j) ==
  IF ~Moves(m, j, l) THEN Still
  ELSE LET c == m.jlink[j]
           e == m.link[c]
           a == MV(pose[e.par].R, MV(e.org.R, e.axis))
       IN IF e.typ = "prismatic" THEN [v |-> a, w |-> VZero]
          ELSE [v |-> Cross(a, VSub(pose[l].p, pose[c].p)), w |-> a]

--------------------------------------------------------------------------------
(* Added links *)

NewEntry(m, par, tf) ==
  [par |-> par, typ |-> "fixed", org |-> tf, axis |-> VZero, jid |-> 0,
   judge |-> IF m.link[par].judge = "all" THEN "all" ELSE "none"]

AddTo(m, name, par, tf) ==
  [m EXCEPT !.lname = Append(@, name), !.link = Append(@, NewEntry(m, par, tf)),
            !.adds = Append(@, <<name, par, tf>>)]
=============================================================================
