-------------------------------- MODULE Paint --------------------------------
(* K22, K24: how materials reach visuals, in the shape of the implementation: *)
(* a table filled from the robot's materials and then from the visuals that   *)
(* bring a definition along; every visual looked up in the table as it goes   *)
(* by; exporting writes the table, then each visual with the material it has, *)
(* links in order of their names; and parsing that again.  Every document of  *)
(* a small family, through several rounds.                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Variant, MaxFirst, MaxSecond, Rounds
C == INSTANCE Content WITH CZero <- 0, COne <- 1, CRound <- LAMBDA x : x

VARIABLES doc,         \* the document that was written by hand
          cur,         \* the one being parsed
          pc, i, k, table, worn, round
vars == <<doc, cur, pc, i, k, table, worn, round>>
is(v) == Variant = v

Ref(n) == [name |-> n, color |-> <<>>, texture |-> <<>>]
Def(n, c) == [name |-> n, color |-> <<<<c, 0, 0, 1>>>>, texture |-> <<>>]
Tex(n, t) == [name |-> n, color |-> <<>>, texture |-> <<t>>]
Wear == {<<>>} \union {<<m>> : m \in {Ref("p"), Ref("q"), Def("p", 2), Def("p", 3), Def("q", 0), Tex("q", "t")}}
Both(n, c, t) == [name |-> n, color |-> <<<<c, 1, 0, 0>>>>, texture |-> <<t>>]
Globals == {<<>>, <<Def("p", 5)>>, <<Def("q", 6), Def("p", 5)>>, <<Tex("q", "g")>>, <<Both("q", 7, "h")>>, <<Ref("p")>>}
Vis(m) == [material |-> m]
Upto(n) == UNION {[1..m -> {Vis(w) : w \in Wear}] : m \in 0..n}
Docs == {[materials |-> g, links |-> <<[name |-> "b", visuals |-> v], [name |-> "a", visuals |-> w]>>] :
           g \in Globals, v \in Upto(MaxFirst), w \in Upto(MaxSecond)}

--------------------------------------------------------------------------------
Init == /\ doc \in Docs /\ cur = doc
        /\ pc = "materials" /\ i = 1 /\ k = 1 /\ table = <<>> /\ worn = [a \in DOMAIN doc.links |-> <<>>] /\ round = 0

Have(n) == n \in DOMAIN table
With(m) == [n \in DOMAIN table \union {m.name} |-> IF n = m.name THEN C!MaterialOf(m) ELSE table[n]]

Material == pc = "materials" /\
  IF i <= Len(cur.materials)
  THEN LET m == cur.materials[i] IN
       /\ table' = With(m)
       /\ i' = i + 1 /\ UNCHANGED <<doc, cur, pc, k, worn, round>>
  ELSE pc' = "visuals" /\ i' = 1 /\ k' = 1 /\ UNCHANGED <<doc, cur, table, worn, round>>

Put(x) == worn' = [worn EXCEPT ![i] = Append(@, x)]
Visual == pc = "visuals" /\
  IF i > Len(cur.links) THEN pc' = "parsed" /\ i' = 1 /\ UNCHANGED <<doc, cur, k, table, worn, round>>
  ELSE IF k > Len(cur.links[i].visuals) THEN i' = i + 1 /\ k' = 1 /\ UNCHANGED <<doc, cur, pc, table, worn, round>>
  ELSE LET m == cur.links[i].visuals[k].material IN
    /\ k' = k + 1 /\ UNCHANGED <<doc, cur, pc, i, round>>
    /\ IF m = <<>> \/ (is("first_only") /\ k > 1 /\ Len(m) > 0 /\ ~C!Defines(m[1])) THEN Put(<<>>) /\ UNCHANGED table
       ELSE LET n == m[1].name d == C!Defines(m[1]) IN
            IF is("own_wins") /\ d THEN Put(<<C!MaterialOf(m[1])>>) /\ table' = (IF Have(n) THEN table ELSE With(m[1]))
            ELSE IF is("last_wins") /\ d THEN Put(<<C!MaterialOf(m[1])>>) /\ table' = With(m[1])
            ELSE IF Have(n) THEN Put(<<table[n]>>) /\ UNCHANGED table
            ELSE IF d THEN Put(<<C!MaterialOf(m[1])>>) /\ table' = (IF is("not_kept") THEN table ELSE With(m[1]))
            ELSE Put(<<>>) /\ UNCHANGED table

(* what is written: the whole table, then the visuals *)
AsDef(m) == [name |-> m.name, color |-> IF (is("color_only_if_no_texture") /\ m.texture # "") \/ (is("no_black") /\ m.color = <<0, 0, 0, 1>>) THEN <<>> ELSE <<m.color>>,
             texture |-> IF m.texture = "" THEN <<>> ELSE <<m.texture>>]
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : <<a, b>> \in {<<"p", "q">>, <<"a", "b">>})
Export ==
  /\ pc = "parsed" /\ round < Rounds
  /\ LET names == Sorted(DOMAIN table)
         order == Sorted({cur.links[a].name : a \in DOMAIN cur.links})
         at(n) == CHOOSE a \in DOMAIN cur.links : cur.links[a].name = n
         mats == IF is("no_table") THEN <<>> ELSE [a \in DOMAIN names |-> AsDef(table[names[a]])]
         wear(x) == IF x = <<>> THEN <<>> ELSE IF is("names_only") THEN <<Ref(x[1].name)>> ELSE <<AsDef(x[1])>>
     IN /\ cur' = [materials |-> mats, links |-> [a \in DOMAIN order |-> [name |-> order[a],
                     visuals |-> [b \in DOMAIN worn[at(order[a])] |-> Vis(wear(worn[at(order[a])][b]))]]]]
        /\ worn' = [a \in DOMAIN order |-> <<>>]
  /\ pc' = "materials" /\ i' = 1 /\ k' = 1 /\ table' = <<>> /\ round' = round + 1
  /\ UNCHANGED doc

Next == Material \/ Visual \/ Export
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Over == pc = "parsed"
At(n) == CHOOSE a \in DOMAIN cur.links : cur.links[a].name = n
(* after any number of exports, visuals wear what the first document says     *)
Worn == Over => \A a \in DOMAIN doc.links :
  LET w == worn[At(doc.links[a].name)] IN
  /\ Len(w) = Len(doc.links[a].visuals)
  /\ \A b \in DOMAIN w : C!ForwardUse(doc, a, b) \/ w[b] = C!Resolve(doc, a, b)
Table == Over => {table[n] : n \in DOMAIN table} = C!MaterialTable(doc)
(* parsing what was written gives back what was there: a fixed point          *)
Emit == IF Over /\ round = 0 THEN PrintT(<<"DOC", ToJson(doc)>>) ELSE TRUE
================================================================================
