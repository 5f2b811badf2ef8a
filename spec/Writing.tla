------------------------------- MODULE Writing -------------------------------
(* K11, K12, K21: the same robot written in different ways.  A document of a  *)
(* small family is rewritten step by step - elements in another order, what   *)
(* has a default written out or left out, exported by the implementation's    *)
(* own writer - and in every reachable document                               *)
(*   - the meaning that Robot.tla gives it is the one it had at first, and    *)
(*   - an implementation-shaped reader (maps by name, defaults at the places  *)
(*     where the parser has them, the root found by its missing parent) comes *)
(*     to the same model.                                                     *)
EXTENDS Robot, FixRing, Json, TLCExt

CONSTANTS Variant, Every,                        \* one document in this many is replayed
          Types, Origins, AxisForms, LowerUpper,   \* first joint
          Seconds,                                 \* second joint, as a whole
          Inertials                                \* of the second link
is(v) == Variant = v

VARIABLES doc, want, op
vars == <<doc, want, op>>

--------------------------------------------------------------------------------
(* the family *)
Lim(lo, hi) == [lower |-> lo, upper |-> hi, effort |-> <<3 * U>>, velocity |-> <<2 * U>>]
Limits(t) == {<<Lim(x[1], x[2])>> : x \in LowerUpper} \union (IF t \in {"continuous", "fixed"} THEN {<<>>} ELSE {})
J(name, t, p, c, org, ax, lim) ==
  [name |-> <<name>>, type |-> <<t>>, parent |-> <<p>>, child |-> <<c>>, origin |-> org, axis |-> ax, limit |-> lim, lex |-> FALSE]
L(n, i) == [name |-> n, inertial |-> i]
Doc(j1, j2, i) ==
  [syntax |-> "ok", robot |-> TRUE, version |-> "none", materials |-> <<>>, unnamed |-> 0,
   links |-> <<L("m", <<>>), L("a", i), L("z", <<>>)>>, joints |-> <<j1, j2>>]
Docs == {Doc(J("j9", t, "m", "a", o, x, l), J("j1", s.type, s.parent, "z", s.origin, s.axis, s.limit), i) :
           t \in Types, o \in Origins, x \in AxisForms, l \in UNION {Limits(k) : k \in Types}, s \in Seconds, i \in Inertials}
Sensible(d) == d.joints[1].limit \in Limits(d.joints[1].type[1])

--------------------------------------------------------------------------------
(* what it means *)
Names == <<"a", "m", "z">>
Sorted(S) == SelectSeq(<<"a", "j1", "j9", "m", "z">>, LAMBDA x : x \in S)
LOrder(d) == Names \o (IF \E i \in DOMAIN d.links : Has(d.links[i].inertial) THEN <<"a_com">> ELSE <<>>)
JOrder(d) == Sorted({d.joints[i].name[1] : i \in {i \in DOMAIN d.joints : d.joints[i].type[1] \in Movable}})
PosRange(t, lim) == IF t = "continuous" THEN <<"free">> ELSE <<Opt(lim[1].lower, Zero), Opt(lim[1].upper, Zero)>>
Rate(lim, f) == IF lim = <<>> THEN <<"free">> ELSE lim[1][f]

Meaning(d) ==
  LET m == Build(d, LOrder(d), JOrder(d)) IN
  [lname |-> m.lname, jname |-> m.jname, jlink |-> m.jlink, mass |-> m.mass, root |-> CHOOSE x \in Roots(d) : TRUE,
   link |-> [i \in DOMAIN m.link |-> [par |-> m.link[i].par, typ |-> m.link[i].typ, org |-> m.link[i].org,
                                      axis |-> IF m.link[i].typ = "fixed" THEN VZero ELSE m.link[i].axis, jid |-> m.link[i].jid]],
   jlim |-> [j \in DOMAIN m.jlim |-> LET t == m.link[m.jlink[j]].typ IN
              <<PosRange(t, m.jlim[j]), Rate(m.jlim[j], "velocity"), Rate(m.jlim[j], "effort")>>]]

--------------------------------------------------------------------------------
(* the reader, in the shape of the implementation *)
ReadPose(o) ==
  IF o = <<>> THEN [xyz |-> VZero, rpy |-> VZero]
  ELSE [xyz |-> IF o[1].xyz = <<>> THEN VZero ELSE o[1].xyz[1],
        rpy |-> IF o[1].rpy = <<>> \/ (is("rpy_needs_xyz") /\ o[1].xyz = <<>>) THEN <<0, 0, 0>> ELSE o[1].rpy[1]]
ReadLimit(l) ==
  IF l = <<>> THEN <<>>
  ELSE <<[lower |-> IF l[1].lower = <<>> THEN Zero ELSE l[1].lower[1],
          upper |-> IF l[1].upper = <<>> THEN (IF is("upper_from_lower") THEN Opt(l[1].lower, Zero) ELSE Zero) ELSE l[1].upper[1],
          effort |-> l[1].effort[1], velocity |-> l[1].velocity[1]]>>
ReadJoint(j) ==
  LET t == j.type[1] IN
  [type |-> t, parent |-> j.parent[1], child |-> j.child[1], pose |-> ReadPose(j.origin),
   axis |-> IF t = "fixed" THEN VZero ELSE IF j.axis = <<>> THEN (IF is("axis_z") THEN EZ ELSE IF is("axis_none") THEN VZero ELSE EX) ELSE j.axis[1],
   limit |-> ReadLimit(j.limit)]
ReadMass(l) == IF l.inertial = <<>> THEN <<>>
               ELSE <<[mass |-> l.inertial[1].mass, I |-> l.inertial[1].I, pose |-> ReadPose(l.inertial[1].origin)]>>
Read(d) ==
  [links |-> [n \in {d.links[i].name : i \in DOMAIN d.links} |-> ReadMass(d.links[CHOOSE i \in DOMAIN d.links : d.links[i].name = n])],
   joints |-> [n \in {d.joints[i].name[1] : i \in DOMAIN d.joints} |-> ReadJoint(d.joints[CHOOSE i \in DOMAIN d.joints : d.joints[i].name[1] = n])],
   first |-> d.links[1].name]

PoseTf(p) == [R |-> RpyV(p.rpy), p |-> p.xyz]
Model(r) ==
  LET ls == Sorted(DOMAIN r.links)
      coms == SelectSeq(ls, LAMBDA n : r.links[n] # <<>>)
      lname == ls \o [i \in DOMAIN coms |-> coms[i] \o "_com"]
      above(n) == {j \in DOMAIN r.joints : r.joints[j].child = n}
      jname == SelectSeq(Sorted(DOMAIN r.joints), LAMBDA j : r.joints[j].type # "fixed")
      ix(n) == CHOOSE i \in DOMAIN lname : lname[i] = n
      jx(n) == CHOOSE i \in DOMAIN jname : jname[i] = n
      root == IF is("root_first") THEN r.first ELSE CHOOSE n \in DOMAIN r.links : above(n) = {}
      none == [par |-> 0, typ |-> "root", org |-> TId, axis |-> VZero, jid |-> 0]
      entry(i) ==
        LET n == lname[i] IN
        IF i > Len(ls) THEN [none EXCEPT !.typ = "fixed", !.par = ix(coms[i - Len(ls)]), !.org = [R |-> MId, p |-> r.links[coms[i - Len(ls)]][1].pose.xyz]]
        ELSE IF n = root \/ above(n) = {} THEN none
        ELSE LET jn == CHOOSE j \in above(n) : TRUE
                 j == r.joints[jn]
             IN [par |-> ix(j.parent), typ |-> j.type, org |-> PoseTf(j.pose), axis |-> j.axis,
                 jid |-> IF j.type = "fixed" THEN 0 ELSE jx(jn)]
      range(j) == IF j.type = "continuous" /\ ~(is("limits_continuous") /\ j.limit # <<>>) THEN <<"free">>
                  ELSE IF is("zero_is_free") /\ j.limit[1].lower = Zero /\ j.limit[1].upper = Zero THEN <<"free">>
                  ELSE <<j.limit[1].lower, j.limit[1].upper>>
  IN [lname |-> lname, jname |-> jname, jlink |-> [k \in DOMAIN jname |-> ix(r.joints[jname[k]].child)],
      mass |-> [k \in DOMAIN coms |-> LET m == r.links[coms[k]][1] IN
                  [link |-> ix(coms[k]), m |-> m.mass, F |-> PoseTf(m.pose),
                   I |-> << <<m.I[1], m.I[2], m.I[3]>>, <<m.I[2], m.I[4], m.I[5]>>, <<m.I[3], m.I[5], m.I[6]>> >>]],
      root |-> root,
      link |-> [i \in DOMAIN lname |-> entry(i)],
      jlim |-> [k \in DOMAIN jname |-> LET j == r.joints[jname[k]] IN
                 <<range(j), IF j.limit = <<>> THEN <<"free">> ELSE <<j.limit[1].velocity>>,
                             IF j.limit = <<>> THEN <<"free">> ELSE <<j.limit[1].effort>> >>]]

(* the writer: everything it has, in order of the names *)
WritePose(p) == <<[xyz |-> IF is("write_no_xyz") THEN <<>> ELSE <<p.xyz>>, rpy |-> IF is("write_no_rpy") THEN <<>> ELSE <<p.rpy>>]>>
Written(d) ==
  LET r == Read(d)
      ls == Sorted(DOMAIN r.links)
      js == Sorted(DOMAIN r.joints)
      lim(l) == IF l = <<>> THEN (IF is("write_empty_limit") THEN <<Lim(<<Zero>>, <<Zero>>)>> ELSE <<>>)
                ELSE <<[lower |-> <<l[1].lower>>, upper |-> IF is("write_lower_only") THEN <<>> ELSE <<l[1].upper>>,
                        effort |-> <<l[1].effort>>, velocity |-> IF is("write_swapped") THEN <<l[1].effort>> ELSE <<l[1].velocity>>]>>
  IN [d EXCEPT !.links = [i \in DOMAIN ls |-> LET m == r.links[ls[i]] IN L(ls[i],
                            IF m = <<>> THEN <<>> ELSE <<[mass |-> m[1].mass, I |-> m[1].I,
                                                          origin |-> IF is("write_no_inertial_origin") THEN <<>> ELSE WritePose(m[1].pose)]>>)],
               !.joints = [i \in DOMAIN js |-> LET j == r.joints[js[i]] IN
                            J(js[i], j.type, j.parent, j.child, WritePose(j.pose),
                              IF is("write_no_axis") THEN <<>> ELSE <<j.axis>>, lim(j.limit))]]

--------------------------------------------------------------------------------
(* rewriting *)
Init == doc \in {d \in Docs : Sensible(d)} /\ want = Meaning(doc) /\ op = "written by hand"

Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
SwapLinks == \E i \in 1..(Len(doc.links) - 1) : doc' = [doc EXCEPT !.links = Swap(@, i)] /\ op' = "links in another order"
SwapJoints == \E i \in 1..(Len(doc.joints) - 1) : doc' = [doc EXCEPT !.joints = Swap(@, i)] /\ op' = "joints in another order"

Forms(o) ==     \* other ways to write an origin, one step away
  IF o = <<>> THEN {<<[xyz |-> <<>>, rpy |-> <<>>]>>}
  ELSE (IF o[1].xyz = <<>> THEN {<<[o[1] EXCEPT !.xyz = <<VZero>>]>>} ELSE IF o[1].xyz[1] = VZero THEN {<<[o[1] EXCEPT !.xyz = <<>>]>>} ELSE {})
       \union (IF o[1].rpy = <<>> THEN {<<[o[1] EXCEPT !.rpy = <<<<0, 0, 0>>>>]>>} ELSE IF o[1].rpy[1] = <<0, 0, 0>> THEN {<<[o[1] EXCEPT !.rpy = <<>>]>>} ELSE {})
       \union (IF o[1].xyz = <<>> /\ o[1].rpy = <<>> THEN {<<>>} ELSE {})
LimForms(l) ==
  IF l = <<>> THEN {}
  ELSE UNION {IF l[1][f] = <<>> THEN {<<[l[1] EXCEPT ![f] = <<Zero>>]>>}
              ELSE IF l[1][f][1] = Zero THEN {<<[l[1] EXCEPT ![f] = <<>>]>>} ELSE {} : f \in {"lower", "upper"}}
AxForms(j) == IF j.axis = <<>> THEN {<<EX>>} ELSE IF j.axis[1] = EX THEN {<<>>} ELSE {}

Rewrite == \E i \in DOMAIN doc.joints : LET j == doc.joints[i] IN
  \/ \E o \in Forms(j.origin) : doc' = [doc EXCEPT !.joints[i].origin = o] /\ op' = "origin"
  \/ \E o \in LimForms(j.limit) : doc' = [doc EXCEPT !.joints[i].limit = o] /\ op' = "limit"
  \/ j.type[1] # "fixed" /\ \E o \in AxForms(j) : doc' = [doc EXCEPT !.joints[i].axis = o] /\ op' = "axis"
RewriteMass == \E i \in DOMAIN doc.links : LET l == doc.links[i] IN
  /\ Has(l.inertial)
  /\ \E o \in Forms(l.inertial[1].origin) : doc' = [doc EXCEPT !.links[i].inertial[1].origin = o]
  /\ op' = "inertial origin"
Export == doc' = Written(doc) /\ op' = "exported"

Next == (SwapLinks \/ SwapJoints \/ Rewrite \/ RewriteMass \/ Export) /\ UNCHANGED want
Spec == Init /\ [][Next]_vars
View == <<doc, want>>

--------------------------------------------------------------------------------
StillValid == WellFormed(doc)
SameMeaning == Meaning(doc) = want
ReadRight == Model(Read(doc)) = want
(* exporting what was exported changes nothing any more                       *)
FixedPoint == Written(Written(doc)) = Written(doc)
Emit == TLCFP(doc) % Every # 0 \/ PrintT(<<"DOC", ToJson(doc)>>)
================================================================================
