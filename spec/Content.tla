------------------------------- MODULE Content -------------------------------
(* K22: what a parsed description contains, as a function of what the         *)
(* document declares.  A document here is the full content of a description:  *)
(* the parts of Robot.tla plus visuals, collisions, materials, dynamics, ...  *)
(* Optional parts are sequences of length 0 or 1; numbers are opaque.         *)
EXTENDS Sequences, SequencesExt, Integers, FiniteSets, TLC

CONSTANTS CZero, COne, CRound(_)     \* 0, 1 and rounding of a colour component

Or(s, dflt) == IF s = <<>> THEN dflt ELSE s[1]

--------------------------------------------------------------------------------
(* Materials.  A material is defined by a <material> of the robot, or by the  *)
(* first visual (in document order) that gives one with a colour or texture;  *)
(* every visual naming it means that definition.                              *)
Defines(m) == m.color # <<>> \/ m.texture # <<>>
MaterialOf(m) == [name |-> m.name, texture |-> Or(m.texture, ""),
                  color |-> IF m.color = <<>> THEN <<CZero, CZero, CZero, COne>>
                            ELSE [k \in 1..4 |-> CRound(m.color[1][k])]]

(* the materials of visuals in document order *)
VisualMaterials(doc) ==
  FlattenSeq([i \in DOMAIN doc.links |->
    FlattenSeq([k \in DOMAIN doc.links[i].visuals |-> doc.links[i].visuals[k].material])])

Definitions(doc) == doc.materials \o SelectSeq(VisualMaterials(doc), Defines)
(* at visual k of link i: the definitions of the robot, and of the visuals up to and including this one *)
Before(doc, i, k) ==
  doc.materials \o
  FlattenSeq([a \in 1..i |-> FlattenSeq([b \in 1..(IF a < i THEN Len(doc.links[a].visuals) ELSE k) |->
                SelectSeq(doc.links[a].visuals[b].material, Defines)])])
Named(ms, n) == SelectSeq(ms, LAMBDA m : m.name = n)
Resolve(doc, i, k) ==
  LET v == doc.links[i].visuals[k].material IN
  IF v = <<>> THEN <<>>
  ELSE LET d == Named(Before(doc, i, k), v[1].name) IN
       IF d = <<>> THEN <<>> ELSE <<MaterialOf(d[1])>>
(* a use before the (only) definition is not judged *)
ForwardUse(doc, i, k) ==
  LET v == doc.links[i].visuals[k].material IN
  v # <<>> /\ Named(Before(doc, i, k), v[1].name) = <<>> /\ Named(Definitions(doc), v[1].name) # <<>>

MaterialTable(doc) == {MaterialOf(Named(Definitions(doc), Definitions(doc)[i].name)[1]) : i \in DOMAIN Definitions(doc)}

--------------------------------------------------------------------------------
(* Shapes and joints *)
GeomOf(g) == [shape |-> g.shape, file |-> Or(g.file, ""),
              dims |-> IF g.shape = "mesh" /\ g.dims = <<>> THEN <<COne, COne, COne>> ELSE g.dims]

LimitOf(x)  == <<Or(x.lower, CZero), Or(x.upper, CZero), x.effort[1], x.velocity[1]>>
DynOf(x)    == <<Or(x.damping, CZero), Or(x.friction, CZero)>>
SafetyOf(x) == <<Or(x.soft_lower_limit, CZero), Or(x.soft_upper_limit, CZero), Or(x.k_position, CZero), x.k_velocity[1]>>
MimicOf(x)  == [joint |-> x.joint, num |-> <<Or(x.multiplier, COne), Or(x.offset, CZero)>>]
Map(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]

AxisIn(j) == IF j.type \in {"fixed", "floating"} THEN <<CZero, CZero, CZero>>
             ELSE Or(j.axis, <<COne, CZero, CZero>>)

(* the tree *)
ParentJoint(doc, n) == {i \in DOMAIN doc.joints : doc.joints[i].child = n}
ChildJoints(doc, n) == {i \in DOMAIN doc.joints : doc.joints[i].parent = n}
RootName(doc) == CHOOSE n \in {doc.links[i].name : i \in DOMAIN doc.links} : ParentJoint(doc, n) = {}
=============================================================================
