-------------------------------- MODULE Calls --------------------------------
(* The calls of the Python layer (K14, K18; also K02, K07, K10, K15, K16) on  *)
(* the engine's memo: setting and reading configurations with a fixed, planar or  *)
(* floating base, and the batched calls, which walk through configurations    *)
(* row by row, fill the memo while they answer, put the answers into flat     *)
(* tables and leave the model in the last row.  In lock step with Tinyfk.     *)
EXTENDS Tinyfk, Answers, FixRing, Json, TLCExt

CONSTANTS Variant, D,       \* [doc, lnames, jnames, root]
          Calls,            \* batched calls [ids, links, base, qs, bs]
          Sets,             \* set_q calls   [ids, base, q, b]
          Misfits           \* calls with rows of the wrong length [call, ids, base, rows]

VARIABLES e,       \* the engine: joint values, base coordinates, memo
          op
vars == <<ms, nums, e, op>>
is(v) == Variant = v
H == "h"
M == ms[H]
Up == H \in Live

Six(base, b, old) ==       \* the six coordinates that a base convention means
  CASE base = "planar" -> (IF is("planar_keeps") THEN <<b[1], b[2], old[3], old[4], old[5], b[3]>>
                           ELSE IF is("planar_roll") THEN <<b[1], b[2], 0, b[3], 0, 0>> ELSE <<b[1], b[2], 0, 0, 0, b[3]>>)
    [] base = "floating" -> b
    [] OTHER -> IF is("fixed_resets") THEN <<0, 0, 0, 0, 0, 0>> ELSE old
TfOf(b) == [R |-> RpyV(<<b[4], b[5], b[6]>>), p |-> <<b[1], b[2], b[3]>>]
Want6(base, b, old) == CASE base = "planar" -> <<b[1], b[2], 0, 0, 0, b[3]>> [] base = "floating" -> b [] OTHER -> old

(* one configuration after another: what is kept of the memo *)
Blank(n) == [i \in 1..n |-> <<>>]
Values(ids, vals) == IF is("sorted_ids") THEN [i \in DOMAIN ids |-> SetToSortSeq(Range(ids), <)[i]] ELSE ids
Row(x, ids, q, base, b, first) ==
  [ q    |-> Assign(x.q, Values(ids, q), q),
    base |-> IF is("base_once") /\ ~first THEN x.base ELSE Six(base, b, x.base),
    memo |-> IF is("rows_keep_memo") /\ ~first THEN x.memo
             ELSE IF is("drop_if_moved") /\ Assign(x.q, ids, q) = x.q /\ Six(base, b, x.base) = x.base THEN x.memo
             ELSE IF is("drop_if_joints") /\ Assign(x.q, ids, q) = x.q THEN x.memo
             ELSE Blank(Len(x.memo)) ]

RECURSIVE Climb(_, _)
Climb(x, l) ==
  IF M.link[l].par = 0 THEN [tf |-> TfOf(x.base), memo |-> x.memo]
  ELSE IF x.memo[l] # <<>> THEN [tf |-> x.memo[l][1], memo |-> x.memo]
  ELSE LET u == Climb(x, M.link[l].par)
           t == Compose(u.tf, Rel(M.link[l], x.q))
       IN [tf |-> t, memo |-> [u.memo EXCEPT ![l] = <<t>>]]

(* the columns for one link: joints, then all six base coordinates; of these  *)
(* a planar base keeps three                                                  *)
Cols(m, pose, ids, l, base) ==
  LET mm == [m EXCEPT !.pose = pose]
      js == [c \in DOMAIN ids |-> Twist(mm, pose, l, ids[c] + 1)]
      six == [k \in 1..6 |-> BaseTwist(mm, l, k)]
      keep == IF base = "planar" THEN (IF is("planar_first") THEN <<1, 2, 3>> ELSE <<1, 2, 6>>) ELSE IF base = "floating" THEN <<1, 2, 3, 4, 5, 6>> ELSE <<>>
  IN js \o [c \in DOMAIN keep |-> six[keep[c]]]

(* the engine's walk through the rows: -> [x, P, J] *)
RECURSIVE Links(_, _, _, _, _, _)
Links(x, c, w, i, P, J) ==
  IF i > Len(c.links) THEN [x |-> x, P |-> P, J |-> J]
  ELSE LET r == Climb(x, c.links[i] + 1)
           y == [x EXCEPT !.memo = r.memo]
           \* the Jacobian asks for the joints' links as well, through the memo
           pose == [l \in DOMAIN M.link |-> IF l = c.links[i] + 1 \/ y.memo[l] # <<>> THEN Climb(y, l).tf ELSE PosesIn(M.link, y.q, TfOf(y.base), M.topo)[l]]
           m == [M EXCEPT !.q = y.q, !.base = TfOf(y.base)]
           at == IF is("link_major") THEN (i - 1) * Len(c.qs) + w ELSE (w - 1) * Len(c.links) + i
       IN Links(y, c, w, i + 1, [P EXCEPT ![at] = r.tf], [J EXCEPT ![at] = Cols(m, pose, c.ids, c.links[i] + 1, c.base)])
RECURSIVE Walk(_, _, _, _, _)
Walk(x, c, w, P, J) ==
  IF w > Len(c.qs) THEN [x |-> x, P |-> P, J |-> J]
  ELSE LET y == Row(x, c.ids, c.qs[w], c.base, c.bs[w], w = 1)
           r == Links(y, c, w, 1, P, J)
       IN Walk(r.x, c, w + 1, r.P, r.J)

(* the same, abstractly: a list of models *)
WithRow(m, ids, q, base, b) == LET s == Want6(base, b, m.bvec) IN Refresh([m EXCEPT !.q = Assign(@, ids, q), !.base = TfOf(s), !.bvec = s])
RECURSIVE Rows(_, _, _)
Rows(m, c, w) == IF w > Len(c.qs) THEN <<>> ELSE LET x == WithRow(m, c.ids, c.qs[w], c.base, c.bs[w]) IN <<x>> \o Rows(x, c, w + 1)
Right(c) ==      \* the answers there have to be
  LET rows == Rows(M, c, 1) nl == Len(c.links) IN
  [P |-> FlattenSeq([w \in DOMAIN rows |-> [i \in 1..nl |-> rows[w].pose[c.links[i] + 1]]]),
   J |-> FlattenSeq([w \in DOMAIN rows |-> [i \in 1..nl |->
           LET m == rows[w] l == c.links[i] + 1 co == Coords(c.base) IN
           [k \in DOMAIN c.ids |-> Twist(m, m.pose, l, c.ids[k] + 1)] \o [k \in DOMAIN co |-> BaseTwist(m, l, co[k])]]])]

--------------------------------------------------------------------------------
Init == TinyfkInit /\ e = <<>> /\ op = [do |-> "init"]

LoadOp == ~Up /\ Load(H, D.doc, 1, D.lnames, D.jnames, D.root)
          /\ e' = [q |-> [j \in DOMAIN D.jnames |-> 0], base |-> <<0, 0, 0, 0, 0, 0>>, memo |-> Blank(Len(D.lnames))]
          /\ op' = [do |-> "load"]

SolveOp(n) ==
  LET c == Calls[n]
      rows == Rows(M, c, 1)
      x0 == IF is("no_clear") THEN e ELSE [e EXCEPT !.memo = Blank(Len(@))]
      z == [i \in 1..(Len(c.qs) * Len(c.links)) |-> <<>>]
      r == Walk(x0, c, 1, z, z)
  IN /\ UNCHANGED nums
     /\ ms' = IF rows = <<>> THEN ms ELSE [ms EXCEPT ![H] = rows[Len(rows)]]
     /\ e' = IF is("restores") THEN [e EXCEPT !.memo = Blank(Len(@))] ELSE r.x
     /\ op' = [do |-> "solve", n |-> n, P |-> r.P, J |-> r.J]

SetQOp(n) ==
  LET c == Sets[n] IN
  /\ UNCHANGED nums
  /\ ms' = [ms EXCEPT ![H] = WithRow(@, c.ids, c.q, c.base, c.b)]
  /\ e' = LET x == Row(e, c.ids, c.q, c.base, c.b, TRUE) IN IF is("setq_keeps") /\ c.base = "fixed" THEN [x EXCEPT !.memo = e.memo] ELSE x
  /\ op' = [do |-> "setq", n |-> n]

(* joint values go in with the question *)
InertiaOp(q) ==
  LET ids == [j \in DOMAIN M.q |-> Len(M.q) - j] IN
  /\ SetJoints(H, ids, q)
  /\ e' = LET x == [e EXCEPT !.q = Assign(@, ids, q), !.memo = IF is("inertia_keeps") THEN @ ELSE Blank(Len(@))]
              r == Climb(x, Len(D.lnames))
          IN [x EXCEPT !.memo = r.memo]
  /\ op' = [do |-> "inertiaq", ids |-> ids, q |-> q]

ClearOp == Query(H) /\ e' = [e EXCEPT !.memo = Blank(Len(@))] /\ op' = [do |-> "clear"]

(* arguments that do not fit are refused before anything is touched           *)
MisfitOp(n) ==
  LET c == Misfits[n]
      k == Len(c.ids)
      need == k + Len(Coords(c.base))
      bad == CHOOSE w \in DOMAIN c.rows : Len(c.rows[w]) # need /\ \A v \in 1..(w - 1) : Len(c.rows[v]) = need
      joints(x, row) == IF Len(row) < k THEN x ELSE [x EXCEPT !.q = Assign(@, c.ids, SubSeq(row, 1, k)), !.memo = Blank(Len(@))]
      base(x, row) == IF Len(row) < 6 \/ c.base # "floating" THEN x
                      ELSE [x EXCEPT !.base = SubSeq(row, Len(row) - 5, Len(row)), !.memo = Blank(Len(@))]
      before == IF bad = 1 THEN e ELSE LET row == c.rows[bad - 1] IN base(joints(e, row), row)
  IN /\ RefuseMisfit(H, [w \in DOMAIN c.rows |-> Len(c.rows[w])], need)
     /\ e' = CASE is("misfit_joints") -> joints(e, c.rows[bad])
              [] is("misfit_base") -> base(e, c.rows[bad])
              [] is("misfit_rows") -> before
              [] OTHER -> e
     /\ op' = [do |-> "misfit", n |-> n]

GetQOp(base) ==
  /\ Query(H) /\ UNCHANGED e
  /\ LET co == IF base = "planar" THEN (IF is("getq_roll") THEN <<1, 2, 4>> ELSE <<1, 2, 6>>) ELSE Coords(base)
     IN op' = [do |-> "getq", base |-> base, v |-> e.q \o [i \in DOMAIN co |-> e.base[co[i]]]]

Next == LoadOp \/ (Up /\ (\/ \E n \in DOMAIN Calls : SolveOp(n)
                          \/ \E n \in DOMAIN Sets : SetQOp(n)
                          \/ \E q \in {<<0, 0>>, <<U, 1>>} : InertiaOp(q)
                          \/ ClearOp
                          \/ \E n \in DOMAIN Misfits : MisfitOp(n)
                          \/ \E b \in {"fixed", "planar", "floating"} : GetQOp(b)))
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
ReadBack == Up => e.q = M.q /\ e.base = M.bvec /\ TfOf(e.base) = M.base
Coherent == Up => \A l \in DOMAIN M.link : Climb(e, l).tf = M.pose[l]
Answered ==
  [][CASE op'.do = "solve" -> LET w == Right(Calls[op'.n]) IN op'.P = w.P /\ op'.J = w.J
       [] op'.do = "getq"  -> op'.v = M.q \o [i \in DOMAIN Coords(op'.base) |-> M.bvec[Coords(op'.base)[i]]]
       [] OTHER -> TRUE]_vars
(* planar is floating with z, roll and pitch zero; fixed leaves the base *)
Conventions ==
  [][op'.do = "setq" => LET c == Sets[op'.n] IN
       /\ c.base = "planar" => \A k \in {3, 4, 5} : M'.bvec[k] = 0
       /\ c.base = "fixed" => M'.base = M.base]_vars

View == <<Live, e, IF Up THEN <<M.q, M.bvec>> ELSE <<>>>>
Edge == PrintT(<<"EDGE", TLCFP(View), ToJson([f \in DOMAIN op' \ {"P", "J", "v"} |-> op'[f]]), TLCFP(View')>>)
================================================================================
