----------------------------- MODULE ContentTrace -----------------------------
(* K22: recorded contents of parsed descriptions against Content.tla.         *)
(* K24: the same after exporting and parsing again ("Reparsed").              *)
EXTENDS TinyfkTrace

C == INSTANCE Content WITH CZero <- RZero, COne <- ROne, CRound <- RFloat

NumEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
OptEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : NumEq(a[i], b[i])
TfOk(o, org) == LET T == OriginOf(org) IN NumEq(o.p, T.p) /\ QOk(o.q, T.R)
MatEq(a, b) == a.name = b.name /\ a.texture = b.texture /\ NumEq(a.color, b.color)
GeomOk(o, g) == LET w == C!GeomOf(g) IN
  o.shape = w.shape /\ o.tag = w.shape /\ o.file = w.file /\ NumEq(o.dims, w.dims)

Exported == Ev.e = "Reparsed"

VisualOk(doc, i, k, o) ==
  LET v == doc.links[i].visuals[k] IN
  /\ Ck(<<"visual name", k>>, o.name = C!Or(v.name, ""))
  /\ Ck(<<"visual origin", k>>, TfOk(o.origin, v.origin))
  /\ Ck(<<"visual geometry", k>>, GeomOk(o.geom, v.geom))
  /\ Ck(<<"visual material name", k>>,
        \/ o.mname = (IF v.material = <<>> THEN "" ELSE v.material[1].name)
        \/ Exported /\ C!Resolve(doc, i, k) = <<>>)        \* a reference to nothing need not survive an export
  /\ Ck(<<"visual material", k>>,
        IF C!ForwardUse(doc, i, k) THEN TRUE
        ELSE LET w == C!Resolve(doc, i, k) IN
             Len(o.mat) = Len(w) /\ \A n \in DOMAIN w : MatEq(o.mat[n], w[n]))
CollisionOk(v, o) ==
  /\ Ck("collision name", o.name = C!Or(v.name, ""))
  /\ Ck("collision origin", TfOk(o.origin, v.origin))
  /\ Ck("collision geometry", GeomOk(o.geom, v.geom))

InertialOk(w, o) ==
  /\ Len(o) = Len(w)
  /\ \A n \in DOMAIN w : REq(o[n].mass, w[n].mass) /\ NumEq(o[n].I, w[n].I) /\ TfOk(o[n].origin, w[n].origin)

NamesOf(doc, S, f(_)) == {f(doc.joints[i]) : i \in S}
LinkOk(doc, i, o) ==
  LET w == doc.links[i] IN
  /\ Ck("link reachable by name", o.found)
  /\ Ck("inertial", InertialOk(w.inertial, o.inertial))
  /\ Ck("number of visuals", Len(o.visuals) = Len(w.visuals))
  /\ \A k \in DOMAIN w.visuals : VisualOk(doc, i, k, o.visuals[k])
  /\ Ck("number of collisions", Len(o.collisions) = Len(w.collisions))
  /\ \A k \in DOMAIN w.collisions : CollisionOk(w.collisions[k], o.collisions[k])
  /\ Ck("first visual and collision", o.first)
  /\ Ck("parent", Range(o.parent) = NamesOf(doc, C!ParentJoint(doc, w.name), LAMBDA j : j.parent))
  /\ Ck("parent joint", Range(o.pjoint) = NamesOf(doc, C!ParentJoint(doc, w.name), LAMBDA j : j.name))
  /\ Ck("child joints", Range(o.cjoints) = NamesOf(doc, C!ChildJoints(doc, w.name), LAMBDA j : j.name))
  /\ Ck("child links", Range(o.clinks) = NamesOf(doc, C!ChildJoints(doc, w.name), LAMBDA j : j.child))
  /\ Ck("number of children", Len(o.cjoints) = Len(o.clinks) /\ Len(o.cjoints) = Cardinality(C!ChildJoints(doc, w.name)))

JointIs(w, o) ==
  /\ Ck("joint reachable by name", o.found)
  /\ Ck("joint type", o.type = w.type)
  /\ Ck("joint parent and child", o.parent = w.parent /\ o.child = w.child)
  /\ Ck("joint origin", TfOk(o.origin, w.origin))
  /\ Ck("joint axis", NumEq(o.axis, C!AxisIn(w)))
  /\ Ck("limit", OptEq(o.limit, C!Map(w.limit, C!LimitOf)))
  /\ Ck("dynamics", OptEq(o.dynamics, C!Map(w.dynamics, C!DynOf)))
  /\ Ck("safety", OptEq(o.safety, C!Map(w.safety, C!SafetyOf)))
  /\ Ck("calibration",
        LET said == SelectSeq(w.calibration, LAMBDA x : x.rising # <<>> \/ x.falling # <<>>)
        IN \E wc \in {w.calibration} \union (IF Exported THEN {said} ELSE {}) :       \* an empty element says nothing
             Len(o.calibration) = Len(wc) /\
               \A n \in DOMAIN wc : NumEq(o.calibration[n].rising, wc[n].rising)
                                    /\ NumEq(o.calibration[n].falling, wc[n].falling))
  /\ Ck("mimic", Len(o.mimic) = Len(w.mimic) /\
          \A n \in DOMAIN w.mimic : LET m == C!MimicOf(w.mimic[n]) IN
                                       o.mimic[n].joint = m.joint /\ NumEq(o.mimic[n].num, m.num))

TParsed ==
  /\ IsEvent("Parsed") \/ IsEvent("Reparsed")
  /\ UNCHANGED <<ms, nums, seen>>
  /\ LET doc == Ev.doc IN
     /\ Ck("parsed", Ev.ok)
     /\ Ck("robot name", Ev.robot = doc.name)
     /\ Ck("root", Ev.root = C!RootName(doc))
     /\ Ck("links", Len(Ev.links) = Len(doc.links) /\ {Ev.links[i].name : i \in DOMAIN Ev.links} = LinkNames(doc))
     /\ \A i \in DOMAIN doc.links : \A k \in DOMAIN Ev.links :
          Ev.links[k].name = doc.links[i].name => (LinkOk(doc, i, Ev.links[k]) \/ (Note("link", doc.links[i].name) /\ FALSE))
     /\ Ck("joints", Len(Ev.joints) = Len(doc.joints)
                     /\ {Ev.joints[i].name : i \in DOMAIN Ev.joints} = {doc.joints[i].name : i \in DOMAIN doc.joints})
     /\ \A i \in DOMAIN doc.joints : \A k \in DOMAIN Ev.joints :
          Ev.joints[k].name = doc.joints[i].name => (JointIs(doc.joints[i], Ev.joints[k]) \/ (Note("joint", doc.joints[i].name) /\ FALSE))
     /\ Ck("material table",
           LET T == C!MaterialTable(doc)
           IN /\ Len(Ev.materials) = Cardinality(T)
              /\ \A m \in T : \E k \in DOMAIN Ev.materials :
                    Ev.materials[k].key = m.name /\ Len(Ev.materials[k].mat) = 1 /\ MatEq(Ev.materials[k].mat[1], m))

ContentNext == TBegin \/ TParsed
ContentSpec == TraceInit /\ [][ContentNext]_xvars
=============================================================================
