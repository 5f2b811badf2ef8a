------------------------------- MODULE Tinyfk -------------------------------
(* The abstract machine: a set of live models, each a robot with a current    *)
(* configuration.  There is no memo table, no work stack and no sharing here: *)
(* every answer is a function of the model record alone.  This is what a user *)
(* may rely on; Engine.tla is the shape of the implementation and is model    *)
(* checked to refine it, TinyfkTrace.tla binds it to recorded executions.     *)
EXTENDS Robot

VARIABLES ms,    \* live handles -> model records
          nums   \* description -> how it was numbered (identical descriptions, identical ids)

tvars == <<ms, nums>>

Refresh(m)  == [m EXCEPT !.pose = PosesIn(m.link, m.q, m.base, m.topo)]
Complete(m) == LET t == Topo(m.link)
               IN m @@ [topo |-> t, pose |-> PosesIn(m.link, m.q, m.base, t)]

Live == DOMAIN ms
Put(h, m) == [k \in Live \union {h} |-> IF k = h THEN m ELSE ms[k]]

TinyfkInit == ms = <<>> /\ nums = <<>>

(* A valid description becomes a model at the zero configuration.  How links  *)
(* and joints are numbered is the implementation's choice, but the same       *)
(* description (key) is always numbered the same way.                         *)
NumberedAlike(key, lnames, jnames) ==
  key \in DOMAIN nums => nums[key] = <<lnames, jnames>>

Load(h, doc, key, lnames, jnames, root) ==
  /\ WellFormed(doc)
  /\ DirectoryOk(doc, lnames, jnames, root)
  /\ NumberedAlike(key, lnames, jnames)
  /\ nums' = [k \in DOMAIN nums \union {key} |-> IF k = key THEN <<lnames, jnames>> ELSE nums[k]]
  /\ ms' = Put(h, Complete(Build(doc, lnames, jnames)) @@ [key |-> key])

(* An invalid one is refused and changes nothing.                             *)
RefuseLoad(doc) == ~WellFormed(doc) /\ UNCHANGED tvars

(* ids are 0-based, as in the API; a later entry for the same joint wins      *)
Assign(q, ids, vals) ==
  FoldLeft(LAMBDA acc, i : [acc EXCEPT ![ids[i] + 1] = vals[i]], q, [i \in DOMAIN ids |-> i])

SetJoints(h, ids, vals) ==
  /\ h \in Live
  /\ UNCHANGED nums
  /\ ms' = [ms EXCEPT ![h] = Refresh([@ EXCEPT !.q = Assign(@, ids, vals)])]

(* b: the transform, and the coordinates if it was given by coordinates       *)
SetBase(h, b) ==
  /\ h \in Live
  /\ UNCHANGED nums
  /\ ms' = [ms EXCEPT ![h] = Refresh([@ EXCEPT !.base = b.tf, !.bvec = b.vec])]

SetBoth(h, ids, vals, b) ==
  /\ h \in Live
  /\ UNCHANGED nums
  /\ ms' = [ms EXCEPT ![h] = Refresh([@ EXCEPT !.q = Assign(@, ids, vals), !.base = b.tf, !.bvec = b.vec])]

Reset(h) ==
  /\ h \in Live
  /\ UNCHANGED nums
  /\ ms' = [ms EXCEPT ![h] = Refresh([@ EXCEPT !.q = [j \in DOMAIN @ |-> Zero]])]

(* par is 0-based *)
AddLink(h, name, par, tf) ==
  /\ h \in Live
  /\ name \notin Range(ms[h].lname)
  /\ UNCHANGED nums
  /\ LET m == AddTo(ms[h], name, par + 1, tf)
         n == Len(m.link)
     IN ms' = [ms EXCEPT ![h] =
                [m EXCEPT !.topo = Append(@, n),
                          !.pose = Append(@, Compose(m.pose[par + 1], tf))]]

RefuseAdd(h, name) == h \in Live /\ name \in Range(ms[h].lname) /\ UNCHANGED tvars

(* A configuration of the wrong length, alone or as a row of a batch, or as    *)
(* many forces as there are not links: refused, whatever the other rows say.  *)
RefuseMisfit(h, widths, needed) == h \in Live /\ (\E w \in DOMAIN widths : widths[w] # needed) /\ UNCHANGED tvars

Copy(h, h2) == h \in Live /\ ms' = Put(h2, ms[h]) /\ UNCHANGED nums

Destroy(h) == h \in Live /\ ms' = [k \in Live \ {h} |-> ms[k]] /\ UNCHANGED nums

(* Any query whatsoever: the state does not change.                           *)
Query(h) == h \in Live /\ UNCHANGED tvars

(* What answers may depend on: the description, the links added so far, the   *)
(* joint values and the base pose.  Nothing else (K02, K19).                  *)
StateOf(m) == <<m.key, m.adds, m.q, m.base>>

--------------------------------------------------------------------------------
(* Properties of the machine itself                                           *)

(* K08: the directory is one-to-one and joints refer to existing links        *)
Directory ==
  \A h \in Live : LET m == ms[h] IN
    /\ IsInjective(m.lname) /\ Len(m.lname) = Len(m.link)
    /\ IsInjective(m.jname) /\ Len(m.jname) = Len(m.q)
    /\ \A j \in DOMAIN m.jname : m.link[m.jlink[j]].jid = j

(* the poses kept in the record are those of the current configuration        *)
PosesCurrent ==
  \A h \in Live : ms[h].pose = PosesIn(ms[h].link, ms[h].q, ms[h].base, ms[h].topo)

(* K06/K08: whatever happens, a model that lives on only grows at the end     *)
(* (unless another one is assigned to it)                                     *)
OnlyGrows ==
  [][\A h \in Live \cap DOMAIN ms' :
        \/ IsPrefix(ms[h].lname, ms'[h].lname) /\ IsPrefix(ms[h].link, ms'[h].link) /\ ms[h].jname = ms'[h].jname
        \/ \E k \in Live \ {h} : ms'[h] = ms[k]]_ms
=============================================================================
