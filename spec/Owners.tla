-------------------------------- MODULE Owners --------------------------------
(* K25: who keeps whom alive.  Descriptions, models, their copies and the     *)
(* links added to them, as objects that exist as long as something that       *)
(* exists, or a live model, refers to them (shared ownership: two objects     *)
(* that keep each other are never given back).  References that do not own,   *)
(* as those from a link to its parent, are not in the picture.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Variant, Names, MaxJoints, MaxAdds

VARIABLES heap,    \* the objects
          refs,    \* <<x, y>>: x keeps y
          hold,    \* live model -> the objects it keeps; 0: what the process keeps for itself
          op
vars == <<heap, refs, hold, op>>
is(v) == Variant = v

M     == <<"model">>
L(n)  == <<"link", n>>
J(i)  == <<"joint", i>>
I(n)  == <<"inertial", n>>
C(n)  == <<"com", n>>        \* the link at a centre of mass, and its joint
P(n)  == <<"pin", n>>
A(k)  == <<"added", k>>      \* an added link, and its joint
B(k)  == <<"bolt", k>>
Linkish(x) == x[1] \in {"link", "com", "added"}

Models == {1, 2}
Live == DOMAIN hold \ {0}
Kept(hd) == UNION {hd[h] : h \in DOMAIN hd}

\* what nothing refers to goes, and then what only that referred to
RECURSIVE Left(_, _, _)
Left(h, r, k) == LET gone == {x \in h : x \notin k /\ ~\E e \in r : e[2] = x}
                 IN IF gone = {} THEN <<h, r>> ELSE Left(h \ gone, {e \in r : e[1] \notin gone}, k)
Settle(h, r, hd) == LET x == Left(h, r, Kept(hd)) IN heap' = x[1] /\ refs' = x[2] /\ hold' = hd

--------------------------------------------------------------------------------
(* Loading.  The joints are entered one by one; the first that cannot be ends *)
(* it, and what has been built so far is dropped.                             *)
Ends == (Names \X Names) \union {<<"?", "a">>, <<"a", "?">>}
Lists == UNION {[1..n -> Ends] : n \in 0..MaxJoints}
Faulty(ns, js, i) == js[i][1] \notin ns \/ js[i][2] \notin ns \/ \E k \in 1..(i - 1) : js[k][2] = js[i][2]
Entered(ns, js) == {i \in DOMAIN js : \A k \in 1..i : ~Faulty(ns, js, k)}
Top(ns, js) == {n \in ns : \A i \in DOMAIN js : js[i][2] # n}
RECURSIVE Down(_, _)
Down(js, s) == LET t == s \union {js[i][2] : i \in {k \in DOMAIN js : js[k][1] \in s}} IN IF t = s THEN s ELSE Down(js, t)
Good(ns, js) == Entered(ns, js) = DOMAIN js /\ Cardinality(Top(ns, js)) = 1 /\ Down(js, Top(ns, js)) = ns

Parts(ns, js, in) == {M} \union {L(n) : n \in ns} \union {J(i) : i \in DOMAIN js} \union {I(n) : n \in in}
Listed(ns, js, in) == {<<M, L(n)>> : n \in ns} \union {<<M, J(i)>> : i \in DOMAIN js} \union {<<L(n), I(n)>> : n \in in}
Joined(js, is_) == UNION {{<<L(js[i][2]), J(i)>>, <<L(js[i][1]), J(i)>>, <<L(js[i][1]), L(js[i][2])>>} : i \in is_}
Wrong(ns, js, is_) == (IF is("parent_owned") THEN {<<L(js[i][2]), L(js[i][1])>> : i \in is_} ELSE {})
                      \union (IF is("child_owned") THEN {<<J(i), L(js[i][2])>> : i \in is_} ELSE {})
                      \union (IF is("model_owned") THEN {<<L(n), M>> : n \in ns} ELSE {})
Between(r) == {e \in r : e[1][1] = "link" /\ e[2][1] = "link"}

Load == \E ns \in SUBSET Names \ {{}}, js \in Lists, in \in {{}, {"a"}, Names} :
  /\ Live = {} /\ op.do # "begin" /\ in \subseteq ns
  /\ LET i == Entered(ns, js)
         h == heap \union Parts(ns, js, in)
         r == refs \union Listed(ns, js, in) \union Joined(js, i) \union Wrong(ns, js, i)
     IN IF Good(ns, js)
        THEN /\ heap' = h \union {C(n) : n \in in} \union {P(n) : n \in in}
             /\ refs' = r \union UNION {{<<L(n), C(n)>>, <<C(n), P(n)>>, <<C(n), I(n)>>} : n \in in}
             /\ LET own == {M} \union {L(n) : n \in ns} \union {J(k) : k \in DOMAIN js} \union {C(n) : n \in in}
                IN hold' = [k \in {0, 1} |-> IF k = 1 THEN own ELSE IF is("registered") THEN hold[0] \union {M} ELSE hold[0]]
        ELSE \* the links let go of each other, or those on a cycle would stay
             LET r2 == IF is("cycle_kept") THEN r ELSE r \ Between(r)
             IN Settle(h, r2, IF is("last_refused") THEN [hold EXCEPT ![0] = {M}] ELSE hold)
  /\ op' = [do |-> "load", links |-> ns, joints |-> js, inertial |-> in, ok |-> Good(ns, js)]

Copy == \E h \in Live, g \in Models \ Live :
  /\ hold' = [k \in DOMAIN hold \union {g} |-> IF k = g THEN hold[h] ELSE IF k = 0 /\ is("copy_listed") THEN hold[h] ELSE hold[k]]
  /\ UNCHANGED <<heap, refs>>
  /\ op' = [do |-> "copy", h |-> h, g |-> g]

Add == \E h \in Live, k \in 1..MaxAdds : \E p \in {x \in hold[h] : Linkish(x)} :
  /\ A(k) \notin heap /\ \A j \in 1..(k - 1) : A(j) \in heap
  /\ heap' = heap \union {A(k), B(k)}
  /\ refs' = refs \union {<<p, A(k)>>, <<A(k), B(k)>>} \union (IF is("added_owns") THEN {<<A(k), p>>} ELSE {})
  /\ hold' = [hold EXCEPT ![h] = @ \union {A(k)}]
  /\ op' = [do |-> "add", h |-> h, k |-> k, p |-> p]

Drop == \E h \in Live :
  /\ Settle(heap, refs, [k \in DOMAIN hold \ {h} |-> hold[k]])
  /\ op' = [do |-> "drop", h |-> h]

Init == heap = {} /\ refs = {} /\ hold = [k \in {0} |-> {}] /\ op = [do |-> "begin"]
Start == op.do = "begin" /\ op' = [do |-> "start"] /\ UNCHANGED <<heap, refs, hold>>
Next == Start \/ Load \/ Copy \/ Add \/ Drop
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
RECURSIVE Reach(_)
Reach(s) == LET t == s \union {e[2] : e \in {x \in refs : x[1] \in s}} IN IF t = s THEN s ELSE Reach(t)

NothingLeft == Live = {} => heap = {}
NoGarbage == heap = Reach(Kept(hold))
WholeModels == \A h \in Live : hold[h] \subseteq heap      \* what a live model needs is there

View == <<heap, refs, hold, op.do = "begin">>
Edge == PrintT(<<"EDGE", TLCFP(View), ToJson(op'), TLCFP(View')>>)
================================================================================
