------------------------------- MODULE Engine -------------------------------
(* The machine in the shape of the implementation, in lock step with the      *)
(* abstract one (Tinyfk): a memo table of link poses with invalidation, a     *)
(* bounded work stack, a relevance table, and link objects that copies share. *)
(*                                                                            *)
(* A query is an action that may fill the memo; its answer is checked in      *)
(* EVERY reachable state for every link and joint (Coherent, Relevance,       *)
(* StackFits, ...): whatever the history, the next answer of any kind is the  *)
(* abstract one.  That is refinement of Tinyfk, answers included.             *)
(*                                                                            *)
(* Variant is either a legitimate variation of the engine, which has to pass, *)
(* or a mistake that TLC has to find (see VARIANTS in tools/mc.py).           *)
EXTENDS Tinyfk, FixRing, Json, TLCExt

CONSTANTS
  Variant,
  Handles,     \* names of model handles
  Docs,        \* sequence of [doc, lnames, jnames, root]
  Values,      \* joint values
  Bases,       \* base coordinates (position, roll, pitch, yaw)
  MaxAdds,     \* links added per model
  AddNames,    \* their names, by number
  Copies       \* BOOLEAN: copying, assigning, destroying, reloading

VARIABLES
  eng,      \* live handles -> engine records
  heap,     \* link objects: [id, par (object or 0), org, typ, axis, jid, kids]
  cells,    \* memo tables
  op        \* the last operation, with everything needed to repeat it

evars == <<ms, nums, eng, heap, cells>>
vars  == <<ms, nums, eng, heap, cells, op>>

is(v) == Variant = v
Range1(n) == [i \in 1..n |-> i]
None == <<>>

--------------------------------------------------------------------------------
(* Poses as the engine computes them: up from the link, pushing, until the    *)
(* root or a memoized link; then down again, popping and memoizing.           *)

Memo(h) == cells[eng[h].cell]
Obj(h, l) == eng[h].links[l]

RelOf(h, o) ==
  LET e == heap[o] IN
  IF e.typ \in Movable THEN Compose(e.org, Motion(e, eng[h].q)) ELSE e.org

RECURSIVE Climb(_, _, _)
Climb(h, o, stack) ==
  IF heap[o].par = 0 THEN [tf |-> eng[h].base, stack |-> stack]
  ELSE IF Memo(h)[heap[o].id] # None THEN [tf |-> Memo(h)[heap[o].id][1], stack |-> stack]
  ELSE Climb(h, heap[o].par, Append(stack, [id |-> heap[o].id, rel |-> RelOf(h, o)]))

EngPose(h, l) ==
  LET up == Climb(h, Obj(h, l), <<>>)
      n == Len(up.stack)
      down == FoldLeft(LAMBDA acc, k : LET x == up.stack[n + 1 - k]
                                           t == Compose(acc.tf, x.rel)
                                       IN [tf |-> t, memo |-> [acc.memo EXCEPT ![x.id] = <<t>>]],
                       [tf |-> up.tf, memo |-> Memo(h)], Range1(n))
  IN [tf |-> down.tf, memo |-> down.memo, depth |-> n]

(* relevance: walk up from every link of the model                            *)
RECURSIVE UpJoints(_)
UpJoints(o) == (IF heap'[o].typ \in Movable THEN {heap'[o].jid} ELSE {}) \union
               (IF heap'[o].par = 0 THEN {} ELSE UpJoints(heap'[o].par))
Table(links) == [l \in DOMAIN links |-> UpJoints(links[l])]

(* the other way, down from each joint's child through the child lists, which *)
(* name objects of other models too: a mistake as soon as objects are shared  *)
RECURSIVE Below(_)
Below(o) == {heap'[o].id} \union UNION {Below(k) : k \in heap'[o].kids}
TableDown(links, old) ==
  LET n == Len(links)
      childOf(j) == CHOOSE o \in Range(links) : heap'[o].typ \in Movable /\ heap'[o].jid = j
      js == {heap'[o].jid : o \in {o \in Range(links) : heap'[o].typ \in Movable}}
  IN [l \in 1..n |-> {j \in js : l \in Below(childOf(j))}]

NoMemo(n) == [i \in 1..n |-> None]
Blank(c, h) == [c EXCEPT ![eng[h].cell] = NoMemo(Len(@))]

--------------------------------------------------------------------------------
(* Operations *)

Init ==
  /\ TinyfkInit
  /\ eng = <<>> /\ heap = <<>> /\ cells = <<>>
  /\ op = [do |-> "init"]

EPut(h, e) == eng' = [k \in DOMAIN eng \union {h} |-> IF k = h THEN e ELSE eng[k]]

LoadOp(h, d) ==
  /\ h \notin Live
  /\ LET D == Docs[d] IN
     /\ Load(h, D.doc, d, D.lnames, D.jnames, D.root)
     /\ LET m == ms'[h]
            n == Len(m.link)
            at == Len(heap)
            kidsOf(i) == {at + k : k \in {k \in 1..n : m.link[k].par = i}}
            new == [i \in 1..n |-> [id |-> i, par |-> IF m.link[i].par = 0 THEN 0 ELSE at + m.link[i].par,
                                    org |-> m.link[i].org, typ |-> m.link[i].typ, axis |-> m.link[i].axis,
                                    jid |-> m.link[i].jid, kids |-> kidsOf(i)]]
        IN /\ heap' = heap \o new
           /\ cells' = Append(cells, NoMemo(n))
           /\ EPut(h, [links |-> [i \in 1..n |-> at + i], q |-> m.q, base |-> m.base,
                       cell |-> Len(cells) + 1, cap |-> IF is("stack_fixed") THEN Len(D.doc.links) ELSE n,
                       rel |-> Table([i \in 1..n |-> at + i])])
  /\ op' = [do |-> "load", h |-> h, d |-> d]

(* which memo entries a change of joint j drops                               *)
Dropped(h, j) ==
  LET all == 1..Len(Memo(h)) IN
  CASE is("setj_keeps") -> {}
    [] is("drop_moved") -> {l \in all : j \in eng[h].rel[l]}
    [] is("drop_child") -> {l \in all : heap[Obj(h, l)].typ \in Movable /\ heap[Obj(h, l)].jid = j}
    [] OTHER -> all

SetJOp(h, j, v, mode) ==
  /\ SetJoints(h, <<j - 1>>, <<v>>)
  /\ EPut(h, [eng[h] EXCEPT !.q[j] = v])
  /\ LET drop == IF is("each_keeps") /\ mode = "each" THEN {}
                 ELSE IF is("small_keeps") /\ v = eng[h].q[j] + 1 THEN {}
                 ELSE Dropped(h, j)
     IN cells' = [cells EXCEPT ![eng[h].cell] = [i \in DOMAIN @ |-> IF i \in drop THEN None ELSE @[i]]]
  /\ UNCHANGED heap
  /\ op' = [do |-> "setj", h |-> h, j |-> ms[h].jname[j], v |-> v, spin |-> ms[h].link[ms[h].jlink[j]].typ \in Spinning, mode |-> mode]

SetBOp(h, b, mode) ==
  LET B == [R |-> RpyV(<<b[4], b[5], b[6]>>), p |-> <<b[1], b[2], b[3]>>] IN
  /\ SetBase(h, [tf |-> B, vec |-> b])
  /\ EPut(h, [eng[h] EXCEPT !.base = B])
  /\ cells' = IF is("setb_keeps") \/ (is("turn_keeps") /\ B.p = eng[h].base.p) THEN cells ELSE Blank(cells, h)
  /\ UNCHANGED heap
  /\ op' = [do |-> "setb", h |-> h, b |-> b, mode |-> mode]

ResetOp(h) ==
  /\ Reset(h)
  /\ EPut(h, [eng[h] EXCEPT !.q = [j \in DOMAIN @ |-> Zero]])
  /\ cells' = IF is("reset_keeps") THEN cells ELSE Blank(cells, h)
  /\ UNCHANGED heap
  /\ op' = [do |-> "reset", h |-> h]

ClearOp(h) ==
  /\ Query(h)
  /\ cells' = Blank(cells, h)
  /\ UNCHANGED <<eng, heap>>
  /\ op' = [do |-> "clear", h |-> h]

AddTf == [R |-> RpyV(<<1, 0, 0>>), p |-> <<0, U, U>>]

AddOp(h, p) ==
  LET k == Len(ms[h].adds) + 1 IN
  /\ k <= MaxAdds
  /\ AddLink(h, AddNames[k], p - 1, AddTf)
  /\ LET o == Len(heap) + 1
         n == Len(eng[h].links) + 1
         links == Append(eng[h].links, o)
         par == Obj(h, p)
         new == [id |-> n, par |-> par, org |-> AddTf, typ |-> "fixed", axis |-> VZero, jid |-> 0, kids |-> {}]
         memo == Memo(h)
     IN /\ heap' = Append([heap EXCEPT ![par].kids = @ \union {o}], new)
        /\ cells' = [cells EXCEPT ![eng[h].cell] =
                        IF is("grow_keeps") THEN Append(memo, None)
                        ELSE IF is("memo_fixed") THEN NoMemo(Len(memo))
                        ELSE NoMemo(n)]
        /\ EPut(h, [eng[h] EXCEPT !.links = links,
                                  !.cap = IF is("stack_fixed") THEN @ ELSE n,
                                  !.rel = IF is("rel_stale") THEN Append(@, {})
                                          ELSE IF is("rel_parent") THEN Append(@, eng[h].rel[p])
                                          ELSE IF is("rel_down") THEN TableDown(links, @)
                                          ELSE Table(links)])
  /\ op' = [do |-> "add", h |-> h, name |-> AddNames[k], parent |-> ms[h].lname[p], dup |-> FALSE]

RefuseOp(h, p, l) ==
  /\ RefuseAdd(h, ms[h].lname[l])
  /\ IF is("refuse_half")       \* the memo has already been extended
     THEN cells' = [cells EXCEPT ![eng[h].cell] = Append(@, None)] /\ UNCHANGED <<eng, heap>>
     ELSE IF is("refuse_kid")   \* hung below the parent before the check
     THEN /\ heap' = Append([heap EXCEPT ![Obj(h, p)].kids = @ \union {Len(heap) + 1}],
                            [id |-> l, par |-> Obj(h, p), org |-> AddTf, typ |-> "fixed", axis |-> VZero, jid |-> 0, kids |-> {}])
          /\ eng' = [eng EXCEPT ![h].links[l] = Len(heap) + 1]
          /\ UNCHANGED cells
     ELSE UNCHANGED <<eng, heap, cells>>
  /\ op' = [do |-> "add", h |-> h, name |-> ms[h].lname[l], parent |-> ms[h].lname[p], dup |-> TRUE]

CopyOp(h, h2) ==
  /\ Copies /\ h # h2
  /\ Copy(h, h2)
  /\ IF is("copy_shares_memo") THEN EPut(h2, eng[h]) /\ UNCHANGED cells
     ELSE IF is("copy_resets") THEN /\ cells' = Append(cells, NoMemo(Len(eng[h].links)))
                                    /\ EPut(h2, [eng[h] EXCEPT !.cell = Len(cells) + 1, !.q = [j \in DOMAIN @ |-> Zero]])
     ELSE cells' = Append(cells, Memo(h)) /\ EPut(h2, [eng[h] EXCEPT !.cell = Len(cells) + 1])
  /\ UNCHANGED heap
  /\ op' = [do |-> IF h2 \in Live THEN "assign" ELSE "copy", h |-> h, h2 |-> h2]

DestroyOp(h) ==
  /\ Copies
  /\ Destroy(h)
  /\ eng' = [k \in DOMAIN eng \ {h} |-> eng[k]]
  /\ UNCHANGED <<heap, cells>>
  /\ op' = [do |-> "destroy", h |-> h]

(* queries: which links they ask for                                          *)
Ask1(h, l) == cells' = [cells EXCEPT ![eng[h].cell] = EngPose(h, l).memo]

PoseOp(h, l) ==
  /\ Query(h)
  /\ Ask1(h, l)
  /\ UNCHANGED <<eng, heap>>
  /\ op' = [do |-> "pose", h |-> h, link |-> ms[h].lname[l]]

(* the Jacobian asks for the link and for the links its relevant joints move, *)
(* all of them above it                                                       *)
JacOp(h, l) ==
  /\ Query(h)
  /\ Ask1(h, l)
  /\ UNCHANGED <<eng, heap>>
  /\ op' = [do |-> "jac", h |-> h, link |-> ms[h].lname[l]]

(* center of mass, its Jacobian, inertia: all the mass points                 *)
Points(h) == SelectSeq([l \in DOMAIN ms[h].link |-> l], LAMBDA l : \E i \in DOMAIN ms[h].mass :
                ms[h].lname[l] = ms[h].lname[ms[h].mass[i].link] \o "_com")
MassOp(h, what) ==
  /\ Points(h) # <<>>
  /\ Query(h)
  /\ cells' = [cells EXCEPT ![eng[h].cell] =
        [i \in DOMAIN @ |-> IF \E k \in DOMAIN Points(h) : EngPose(h, Points(h)[k]).memo[i] # None
                            THEN EngPose(h, Points(h)[CHOOSE k \in DOMAIN Points(h) : EngPose(h, Points(h)[k]).memo[i] # None]).memo[i]
                            ELSE @[i]]]
  /\ UNCHANGED <<eng, heap>>
  /\ op' = [do |-> what, h |-> h]

Next ==
  \E h \in Handles :
    \/ \E d \in DOMAIN Docs : LoadOp(h, d)
    \/ h \in Live /\
       \/ \E j \in DOMAIN ms[h].q, v \in Values, mode \in {"all", "each", "raw"} : SetJOp(h, j, v, mode)
       \/ \E b \in Bases, mode \in {"set", "raw"} : SetBOp(h, b, mode)
       \/ ResetOp(h)
       \/ ClearOp(h)
       \/ \E p \in DOMAIN ms[h].link : AddOp(h, p)
       \/ \E l \in DOMAIN ms[h].link : RefuseOp(h, 1, l)
       \/ \E h2 \in Handles : CopyOp(h, h2)
       \/ DestroyOp(h)
       \/ \E l \in DOMAIN ms[h].link : PoseOp(h, l) \/ JacOp(h, l)
       \/ \E w \in {"com", "comjac", "inertia"} : MassOp(h, w)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* What has to hold in every reachable state *)

(* sizes first: a table of the wrong size would be indexed out of bounds      *)
Sized ==
  \A h \in Live : /\ Len(eng[h].links) = Len(ms[h].link)
                  /\ Len(Memo(h)) = Len(ms[h].link)
                  /\ Len(eng[h].rel) = Len(ms[h].link)
                  /\ \A l \in DOMAIN eng[h].links : heap[Obj(h, l)].id = l

(* the answer to any pose query that could come next                          *)
Coherent == \A h \in Live : \A l \in DOMAIN ms[h].link : EngPose(h, l).tf = ms[h].pose[l]

(* the work stack suffices for it                                             *)
StackFits == \A h \in Live : \A l \in DOMAIN ms[h].link : EngPose(h, l).depth <= eng[h].cap

(* which columns of a Jacobian are zero                                       *)
Relevance ==
  \A h \in Live : \A l \in DOMAIN ms[h].link : \A j \in DOMAIN ms[h].q :
     (j \in eng[h].rel[l]) = Moves(ms[h], j, l)

(* what is read back                                                          *)
ReadBack == \A h \in Live : eng[h].q = ms[h].q /\ eng[h].base = ms[h].base

(* the memo only holds current poses and is closed towards the root           *)
MemoSound ==
  \A h \in Live : \A l \in DOMAIN Memo(h) :
     Memo(h)[l] # None => /\ Memo(h)[l][1] = ms[h].pose[l]
                          /\ LET p == ms[h].link[l].par IN p # 0 /\ (ms[h].link[p].par # 0 => Memo(h)[p] # None)

(* models that do not share a history never share a memo                      *)
Separate == \A h, k \in Live : h # k => eng[h].cell # eng[k].cell

--------------------------------------------------------------------------------
(* States that differ only in the names of objects and memo tables, or in     *)
(* ones that nothing refers to, are the same state.  Child lists only count   *)
(* in the variant that reads them.                                            *)
Named(o) == {<<h, l>> \in {<<h, l>> : h \in Live, l \in 1..9} : l \in DOMAIN eng[h].links /\ eng[h].links[l] = o}
View ==
  << ms, nums,
     [h \in Live |-> [q |-> eng[h].q, base |-> eng[h].base, cap |-> eng[h].cap, rel |-> eng[h].rel, memo |-> Memo(h),
                      cell |-> {k \in Live : eng[k].cell = eng[h].cell},
                      objs |-> [l \in DOMAIN eng[h].links |->
                                  LET x == heap[Obj(h, l)] IN
                                  IF is("rel_down")
                                  THEN <<Named(Obj(h, l)), x.id, {<<Named(k), heap[k].id>> : k \in x.kids}>>
                                  ELSE <<x.id, heap[IF x.par = 0 THEN 1 ELSE x.par].id>>]]] >>

(* every transition, to be walked on the real code *)
Edge == PrintT(<<"EDGE", TLCFP(View), ToJson(op'), TLCFP(View')>>)
=============================================================================
