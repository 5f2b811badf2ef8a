------------------------------- MODULE Loader -------------------------------
(* Loading a description, in the shape of the implementation: the syntax, the *)
(* materials, the links, the joints, then the tree is hung together joint by  *)
(* joint, the root is looked for, and the links below it are counted.  Every  *)
(* description of a small family is loaded, in every order of hanging the     *)
(* joints.  Whatever the order: it ends, with a model exactly when the        *)
(* description is well formed, and the model has the tree that is described.  *)
EXTENDS Robot, FixRing, Json

CONSTANTS Variant,    \* "none" or a mistake TLC has to find
          MaxLinks, MaxJoints

VARIABLES doc, pc, k, known, named, par, todo, seen

vars == <<doc, pc, k, known, named, par, todo, seen>>
is(v) == Variant = v

--------------------------------------------------------------------------------
(* The family *)

Names == <<"b", "a", "c">>          \* not in alphabetical order
JNames == <<"k", "i", "j">>
Far == "z"                           \* never declared
Lk(n) == [name |-> n, inertial |-> <<>>]
Lim == <<[lower |-> <<0>>, upper |-> <<U>>, effort |-> <<U>>, velocity |-> <<U>>]>>
Jt(n, p, c) == [name |-> <<n>>, type |-> <<"fixed">>, parent |-> <<p>>, child |-> <<c>>, origin |-> <<>>, axis |-> <<>>,
                limit |-> <<>>, lex |-> FALSE]
Doc(links, joints) ==
  [syntax |-> "ok", robot |-> TRUE, version |-> "none", materials |-> <<>>, unnamed |-> 0,
   links |-> [i \in DOMAIN links |-> Lk(links[i])], joints |-> joints]

Ends(n) == {Names[i] : i \in 1..n} \union {Far}
(* all ways to put joints between the links (and one that does not exist)     *)
Shapes == UNION {{Doc(SubSeq(Names, 1, n), [i \in 1..m |-> Jt(JNames[i], pcs[i][1], pcs[i][2])]) :
                    pcs \in [1..m -> Ends(n) \X Ends(n)]} : n \in 1..MaxLinks, m \in 0..MaxJoints}

(* one thing wrong (or unusual) with one joint of a tree                      *)
Trees == {d \in Shapes : IsTree(d) /\ Len(d.joints) > 0}
Types == {"revolute", "continuous", "prismatic", "planar", "floating", "odd"}
JointFaults(j, o) ==
  {[j EXCEPT !.name = <<>>], [j EXCEPT !.type = <<>>], [j EXCEPT !.parent = <<>>], [j EXCEPT !.child = <<>>],
   [j EXCEPT !.name = <<o>>], [j EXCEPT !.lex = TRUE]}
  \union {[j EXCEPT !.type = <<t>>, !.limit = l] : t \in Types, l \in {<<>>, Lim, <<[Lim[1] EXCEPT !.effort = <<>>]>>, <<[Lim[1] EXCEPT !.velocity = <<>>]>>,
                                                            <<[Lim[1] EXCEPT !.lower = <<>>, !.upper = <<>>]>>}}
OneFault == UNION {UNION {{[d EXCEPT !.joints[i] = f] : f \in JointFaults(d.joints[i], JNames[1 + (i % Len(d.joints))])} :
                            i \in DOMAIN d.joints} : d \in Trees}
(* the same joint twice                                                       *)
Repeated == {[d EXCEPT !.joints = Append(@, [@[i] EXCEPT !.type = <<"continuous">>])] : i \in {1}, d \in Trees} \union
            {[d EXCEPT !.joints = Append(@, @[i])] : i \in {1}, d \in Trees} \union
            {[d EXCEPT !.links = Append(@, @[i])] : i \in {1}, d \in Trees}
Headers == UNION {{[d EXCEPT !.syntax = "empty"], [d EXCEPT !.syntax = "broken"], [d EXCEPT !.syntax = "deep"], [d EXCEPT !.robot = FALSE], [d EXCEPT !.version = "1.0"],
                   [d EXCEPT !.version = "1.1"], [d EXCEPT !.materials = <<"m", "n">>], [d EXCEPT !.materials = <<"m", "n", "m">>],
                   [d EXCEPT !.unnamed = 1], [d EXCEPT !.unnamed = 1, !.links = <<>>, !.joints = <<>>],
                   [d EXCEPT !.unnamed = 2, !.links = <<>>, !.joints = <<>>],
                   [d EXCEPT !.unnamed = 1, !.joints = Append(@, Jt("j", d.links[1].name, ""))],
                   [d EXCEPT !.unnamed = 1, !.joints = Append(@, Jt("j", "", d.links[1].name))], [d EXCEPT !.links = <<>>], [d EXCEPT !.links = <<>>, !.joints = <<>>]} :
                    d \in {d \in Trees : Len(d.joints) = 1} \union {Doc(<<"a">>, <<>>)}}

Family == Shapes \union OneFault \union Repeated \union Headers

--------------------------------------------------------------------------------
(* The machine *)

Init == /\ doc \in Family
        /\ pc = "head" /\ k = 1 /\ known = {} /\ named = <<>> /\ par = <<>> /\ todo = {} /\ seen = 0

Refuse == pc' = "refused" /\ UNCHANGED <<doc, k, known, named, par, todo, seen>>
Go(to) == pc' = to /\ k' = 1
Quiet == UNCHANGED <<doc, known, named, par, todo, seen>>

(* elements within elements are read by recursion: beyond a bound it has to   *)
(* give up, not to run out of stack                                           *)
Heading == pc = "head" /\
  IF doc.syntax = "deep" /\ is("no_bound") THEN pc' = "crashed" /\ UNCHANGED <<doc, k, known, named, par, todo, seen>>
  ELSE IF doc.syntax # "ok" \/ (~doc.robot /\ ~is("no_robot")) \/ doc.version \notin {"none", "1.0"}
     \/ (Cardinality(Range(doc.materials)) # Len(doc.materials) /\ ~is("material_twice"))
  THEN Refuse ELSE Go("links") /\ Quiet

Link == pc = "links" /\
  IF k <= Len(doc.links)
  THEN IF doc.links[k].name \in known /\ ~is("link_twice") THEN Refuse
       ELSE known' = known \union {doc.links[k].name} /\ k' = k + 1 /\ UNCHANGED <<doc, pc, named, par, todo, seen>>
  ELSE IF doc.unnamed > (IF is("unnamed_link") THEN 1 ELSE 0) THEN Refuse
  ELSE IF doc.unnamed = 1 /\ "" \notin known      \* the mistake: a link like any other
  THEN known' = known \union {""} /\ UNCHANGED <<doc, pc, k, named, par, todo, seen>>
  ELSE IF known = {} THEN Refuse
  ELSE Go("joints") /\ Quiet

(* a joint on its own *)
Readable(j) == /\ Has(j.name) /\ ~j.lex /\ Has(j.type) /\ j.type[1] # "odd"
               /\ (Has(j.limit) /\ ~is("limit_partial") => Has(j.limit[1].effort) /\ Has(j.limit[1].velocity))
               /\ (j.type[1] \in {"revolute", "prismatic"} \ (IF is("prismatic_free") THEN {"prismatic"} ELSE {}) => Has(j.limit))

Names1(s) == {s[i].name[1] : i \in DOMAIN s}
Joint == pc = "joints" /\
  IF k <= Len(doc.joints)
  THEN LET j == doc.joints[k] IN
       IF ~Readable(j) THEN (IF is("skip_bad_joint") THEN k' = k + 1 /\ UNCHANGED <<doc, pc, known, named, par, todo, seen>> ELSE Refuse)
       ELSE IF j.name[1] \in Names1(named)
       THEN LET o == CHOOSE i \in DOMAIN named : named[i].name = j.name IN
            IF is("joint_twice") \/ (is("same_joint_twice") /\ named[o].parent = j.parent /\ named[o].child = j.child)
            THEN k' = k + 1 /\ UNCHANGED <<doc, pc, known, named, par, todo, seen>> ELSE Refuse
       ELSE named' = Append(named, j) /\ k' = k + 1 /\ UNCHANGED <<doc, pc, known, par, todo, seen>>
  ELSE Go("tree") /\ todo' = DOMAIN named /\ UNCHANGED <<doc, known, named, par, seen>>

(* hang one joint, whichever comes first *)
Tree == pc = "tree" /\
  IF todo = {} THEN Go("root") /\ Quiet
  ELSE \E i \in todo : LET j == named[i] IN
    IF j.parent = <<>> \/ j.child = <<>> \/ j.child[1] \notin known \/ (j.parent[1] \notin known /\ ~is("parent_unknown")) THEN Refuse
    ELSE IF j.child[1] \in DOMAIN par /\ ~is("two_parents") THEN Refuse
    ELSE /\ par' = [n \in DOMAIN par \union {j.child[1]} |-> IF n = j.child[1] THEN [up |-> j.parent[1], joint |-> i] ELSE par[n]]
         /\ todo' = todo \ {i}
         /\ UNCHANGED <<doc, pc, k, known, named, seen>>

Tops == known \ DOMAIN par
Root == pc = "root" /\
  IF Tops = {} \/ (Cardinality(Tops) > 1 /\ ~is("first_root")) THEN Refuse
  ELSE /\ pc' = "walk" /\ todo' = {CHOOSE n \in Tops : TRUE} /\ seen' = 0
       /\ UNCHANGED <<doc, k, known, named, par>>

(* count what is below the root *)
Walk == pc = "walk" /\
  IF todo = {} THEN (IF seen = Cardinality(known) \/ is("loose_cycle") THEN Go("types") /\ Quiet ELSE Refuse)
  ELSE \E n \in todo :
         /\ todo' = (todo \ {n}) \union {c \in DOMAIN par : par[c].up = n}
         /\ seen' = seen + 1
         /\ UNCHANGED <<doc, pc, k, known, named, par>>

Kinds == pc = "types" /\
  IF (\E i \in DOMAIN named : named[i].type[1] \notin Supported) /\ ~is("any_type") THEN Refuse
  ELSE Go("done") /\ Quiet

Next == Heading \/ Link \/ Joint \/ Tree \/ Root \/ Walk \/ Kinds
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* What has to hold *)

Over == pc \in {"done", "refused"}
Decides == (pc = "done" => WellFormed(doc)) /\ (pc = "refused" => ~WellFormed(doc))

(* it can always go on, and every step makes progress: it ends                *)
Ends1 == Over \/ ENABLED Next
Stage(p) == CASE p = "head" -> 0 [] p = "links" -> 1 [] p = "joints" -> 2 [] p = "tree" -> 3 [] p = "root" -> 4
              [] p = "walk" -> 5 [] p = "types" -> 6 [] OTHER -> 7
Measure(p, kk, t, s) == Stage(p) * 1000 + (IF p = "tree" THEN 100 - Cardinality(t) ELSE 0) + (IF p = "walk" THEN s ELSE 0) + kk
Progress == [][Measure(pc', k', todo', seen') > Measure(pc, k, todo, seen) /\ seen' <= Cardinality(known)]_vars

(* the tree is the one described, whatever the numbering                      *)
LN == [i \in DOMAIN doc.links |-> doc.links[i].name]
JN == SelectSeq([i \in DOMAIN doc.joints |-> doc.joints[i].name[1]],
                LAMBDA n : \E i \in DOMAIN doc.joints : doc.joints[i].name[1] = n /\ doc.joints[i].type[1] \in Movable)
SameTree ==
  pc = "done" =>
    LET m == Build(doc, LN, JN) IN
    \A i \in DOMAIN LN :
       IF LN[i] \in DOMAIN par
       THEN /\ m.link[i].par # 0 /\ LN[m.link[i].par] = par[LN[i]].up
            /\ m.link[i].typ = named[par[LN[i]].joint].type[1]
       ELSE m.link[i].par = 0
(* and it is a tree: from everywhere the root is reached                      *)
Rooted == pc = "done" => \A i \in DOMAIN LN : Cardinality(PathTo(Build(doc, LN, JN).link, i)) <= Len(LN)

Emit == IF Over THEN PrintT(<<"DOC", ToJson(doc)>>) ELSE TRUE
=============================================================================
