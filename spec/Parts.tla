-------------------------------- MODULE Parts --------------------------------
(* K22, K24: the optional parts of joints, visuals and collisions, in the     *)
(* shape of the implementation: element by element, attribute by attribute,   *)
(* with defaults where the reader has them, and written back attribute by     *)
(* attribute.  Every document with two elements of one kind, several rounds.  *)
(* What a document declares is said by Content; here is how it gets there.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Variant, Kinds, Rounds
C == INSTANCE Content WITH CZero <- 0, COne <- 1, CRound <- LAMBDA x : x
is(v) == Variant = v

VARIABLES doc,      \* two elements as they were written by hand
          cur,      \* as they are written now
          i, left,  \* the element being read, the attributes still to be looked at
          new,      \* what has been read of it
          kept,     \* what has been read of those before
          round
vars == <<doc, cur, i, left, new, kept, round>>

--------------------------------------------------------------------------------
(* An element is a function from its attributes to <<>> or <<value>>.         *)
Attrs == [limit       |-> <<"lower", "upper", "effort", "velocity">>,
          dynamics    |-> <<"damping", "friction">>,
          safety      |-> <<"soft_lower_limit", "soft_upper_limit", "k_position", "k_velocity">>,
          calibration |-> <<"rising", "falling">>,
          mimic       |-> <<"multiplier", "offset">>,
          mesh        |-> <<"x", "y", "z", "name">>,
          origin      |-> <<"xyz", "rpy">>]
Required(k, a) == (k = "limit" /\ a \in {"effort", "velocity"}) \/ a = "k_velocity"
Values(k, a) == CASE k = "origin" -> {2} [] a = "name" -> {2} [] k = "mesh" -> {1, 2} [] k = "limit" \/ k = "safety" -> {0, 2} [] OTHER -> {0, 1, 2}
Forms(k, a) == {<<v>> : v \in Values(k, a)} \union (IF Required(k, a) THEN {} ELSE {<<>>})
Elements(k) ==
  LET A == Range(Attrs[k])
      F == {f \in [A -> UNION {Forms(k, a) : a \in A}] : \A a \in A : f[a] \in Forms(k, a)}
  IN IF k = "dynamics" THEN {f \in F : \E a \in A : f[a] # <<>>}
     ELSE IF k = "mesh" THEN {f \in F : (f["x"] = <<>>) = (f["y"] = <<>>) /\ (f["x"] = <<>>) = (f["z"] = <<>>)}     \* one list
     ELSE F
Docs == UNION {{<<[kind |-> k, at |-> f], [kind |-> k, at |-> g]>> : f \in Elements(k), g \in Elements(k)} : k \in Kinds}

--------------------------------------------------------------------------------
(* Reading.  None: nothing was declared, and that is kept apart from a number *)
None == -1
Default(k, a) == CASE k = "calibration" -> None
                   [] a = "name" -> None
                   [] a = "multiplier" -> IF is("no_multiplier") THEN 0 ELSE 1
                   [] k = "mesh" -> 1
                   [] OTHER -> 0
Start(k) == IF is("left_over") /\ kept # <<>> THEN kept[Len(kept)] ELSE [a \in Range(Attrs[k]) |-> Default(k, a)]

Init == /\ doc \in Docs /\ cur = doc
        /\ i = 1 /\ left = Range(Attrs[doc[1].kind]) /\ kept = <<>> /\ round = 0
        /\ new = [a \in Range(Attrs[doc[1].kind]) |-> Default(doc[1].kind, a)]

K == doc[1].kind
Read == /\ i <= Len(cur) /\ left # {}
        /\ \E a \in left :           \* in whatever order
             /\ left' = left \ {a}
             /\ LET v == cur[i].at[a] IN
                new' = IF v = <<>> \/ (is("lower_needs_upper") /\ a = "lower" /\ cur[i].at["upper"] = <<>>)
                                   \/ (is("rpy_needs_xyz") /\ a = "rpy" /\ cur[i].at["xyz"] = <<>>) THEN new
                       ELSE [new EXCEPT ![a] = v[1]]
        /\ UNCHANGED <<doc, cur, i, kept, round>>
Done == /\ i <= Len(cur) /\ left = {}
        /\ kept' = Append(kept, IF is("limits_sorted") /\ K = "limit" /\ new["lower"] > new["upper"]
                                THEN [new EXCEPT !["lower"] = new["upper"], !["upper"] = new["lower"]] ELSE new)
        /\ i' = i + 1
        /\ IF i < Len(cur)
           THEN /\ left' = Range(Attrs[K])
                /\ new' = IF is("left_over") THEN new ELSE [a \in Range(Attrs[K]) |-> Default(K, a)]
           ELSE UNCHANGED <<left, new>>
        /\ UNCHANGED <<doc, cur, round>>

(* Writing *)
Put(k, e, a) ==
  LET v == e[a] IN
  IF v = None THEN <<>>
  ELSE IF is("skip_defaults") /\ ~Required(k, a) /\ v = Default(k, a) THEN <<>>
  ELSE IF is("skip_zeros") /\ ~Required(k, a) /\ v = 0 THEN <<>>
  ELSE IF is("no_offset") /\ a = "offset" THEN <<>>
  ELSE IF is("no_name") /\ a = "name" THEN <<>>
  ELSE IF is("falling_needs_rising") /\ a = "falling" /\ e["rising"] = None THEN <<>>
  ELSE IF is("swapped") /\ a = "effort" THEN <<e["velocity"]>>
  ELSE IF is("swapped") /\ a = "velocity" THEN <<e["effort"]>>
  ELSE IF is("scale_by_x") /\ k = "mesh" /\ a # "name" /\ e["x"] = 1 THEN <<>>
  ELSE <<v>>
Whole(k, f) ==           \* the three numbers of a scale come together or not at all
  IF k = "mesh" /\ \E a \in {"x", "y", "z"} : f[a] # <<>> THEN [f EXCEPT !["x"] = <<C!Or(@, 1)>>, !["y"] = <<C!Or(@, 1)>>, !["z"] = <<C!Or(@, 1)>>] ELSE f
Bare(k, e) == k = "calibration" /\ \A a \in DOMAIN e : e[a] = None
Export ==
  /\ i > Len(cur) /\ round < Rounds
  /\ LET some == IF is("bare_kept") THEN kept ELSE SelectSeq(kept, LAMBDA e : ~Bare(K, e))
     IN cur' = [n \in DOMAIN some |-> [kind |-> K, at |-> Whole(K, [a \in DOMAIN some[n] |-> Put(K, some[n], a)])]]
  /\ i' = 1 /\ left' = Range(Attrs[K]) /\ kept' = <<>> /\ round' = round + 1
  /\ new' = [a \in Range(Attrs[K]) |-> Default(K, a)]
  /\ UNCHANGED doc

Next == Read \/ Done \/ Export
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* What Content says that an element declares                                 *)
Means(e) ==
  LET f == e.at IN
  CASE e.kind = "limit" -> C!LimitOf(f)
    [] e.kind = "dynamics" -> C!DynOf(f)
    [] e.kind = "safety" -> C!SafetyOf(f)
    [] e.kind = "calibration" -> <<f.rising, f.falling>>
    [] e.kind = "mimic" -> C!MimicOf([joint |-> "j", multiplier |-> f.multiplier, offset |-> f.offset]).num
    [] e.kind = "mesh" -> <<C!GeomOf([shape |-> "mesh", file |-> <<"m">>, dims |-> f.x \o f.y \o f.z]).dims, f.name>>
    [] e.kind = "origin" -> <<C!Or(f.xyz, 0), C!Or(f.rpy, 0)>>
Opt(v) == IF v = None THEN <<>> ELSE <<v>>
Kept(k, e) ==
  CASE k = "limit" -> <<e.lower, e.upper, e.effort, e.velocity>>
    [] k = "dynamics" -> <<e.damping, e.friction>>
    [] k = "safety" -> <<e.soft_lower_limit, e.soft_upper_limit, e.k_position, e.k_velocity>>
    [] k = "calibration" -> <<Opt(e.rising), Opt(e.falling)>>
    [] k = "mimic" -> <<e.multiplier, e.offset>>
    [] k = "mesh" -> <<<<e.x, e.y, e.z>>, Opt(e.name)>>
    [] k = "origin" -> <<e.xyz, e.rpy>>
Says(e) == e.kind # "calibration" \/ e.at.rising # <<>> \/ e.at.falling # <<>>

Declared == i > Len(cur) =>
  LET want == IF round = 0 \/ is("bare_kept") THEN doc ELSE SelectSeq(doc, Says)
  IN [n \in DOMAIN kept |-> Kept(K, kept[n])] = [n \in DOMAIN want |-> Means(want[n])]
Emit == IF round = 0 /\ i = 1 /\ left = Range(Attrs[K]) /\ kept = <<>> THEN PrintT(<<"DOC", ToJson(doc)>>) ELSE TRUE
================================================================================
