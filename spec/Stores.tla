-------------------------------- MODULE Stores --------------------------------
(* K23: the two containers in the shape of the implementation (an array and   *)
(* an index; an array and an array of flags) refine the stack and the memo of *)
(* Containers.tla.  Every transition is taken on the real containers.         *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json

CONSTANTS Variant, Vals, MaxCap, MaxSlots

VARIABLES data, idx,      \* the stack: slots, number in use
          vals, set,      \* the memo: slots, flags
          op              \* what was done, and what it answered
vars == <<data, idx, vals, set, op>>
is(v) == Variant = v
Junk == 0                  \* what a slot holds that nothing was written to

Init == data = <<>> /\ idx = 0 /\ vals = <<>> /\ set = <<>> /\ op = [do |-> "begin"]

Did(o) == op' = o
StackOnly == UNCHANGED <<vals, set>>
MemoOnly  == UNCHANGED <<data, idx>>

SNew == \E n \in 0..MaxCap : data' = [i \in 1..n |-> Junk] /\ idx' = (IF is("new_in_use") /\ n > 0 THEN 1 ELSE 0) /\ StackOnly /\ Did([do |-> "snew", n |-> n])
Push == \E v \in Vals :
  /\ idx < Len(data)
  /\ data' = [data EXCEPT ![IF is("push_over") /\ idx > 1 THEN idx ELSE idx + 1] = v]
  /\ idx' = idx + 1
  /\ StackOnly /\ Did([do |-> "spush", v |-> v])
Pop == idx > 0 /\ idx' = (IF is("pop_two") /\ idx > 2 THEN idx - 2 ELSE idx - 1) /\ UNCHANGED data /\ StackOnly
       /\ Did([do |-> "spop", v |-> data[IF is("top_first") THEN 1 ELSE idx]])
Reset == idx' = (IF is("reset_keeps") /\ idx = Len(data) THEN idx ELSE 0) /\ UNCHANGED data /\ StackOnly /\ Did([do |-> "sreset"])
\* the work goes on with a copy, while the source is filled with other elements
SCopy == /\ idx' = (IF is("copy_empty") THEN 0 ELSE idx)
         /\ data' = (IF is("copy_shares") THEN [i \in DOMAIN data |-> Junk] ELSE data)
         /\ StackOnly /\ Did([do |-> "scopy"])

CNew == \E n \in 0..MaxSlots : vals' = [i \in 1..n |-> Junk] /\ set' = [i \in 1..n |-> FALSE] /\ MemoOnly /\ Did([do |-> "cnew", n |-> n])
CSet == \E i \in DOMAIN vals : \E v \in Vals :
  /\ vals' = IF is("set_first") /\ set[i] THEN vals ELSE [vals EXCEPT ![i] = v]
  /\ set' = IF is("set_all") THEN [k \in DOMAIN set |-> set[k] \/ k <= i] ELSE [set EXCEPT ![i] = TRUE]
  /\ MemoOnly /\ Did([do |-> "cset", i |-> i, v |-> v])
CGet == \E i \in DOMAIN vals :
  /\ UNCHANGED <<data, idx, vals>>
  /\ set' = IF is("get_forgets") THEN [set EXCEPT ![i] = FALSE] ELSE set
  /\ Did([do |-> "cget", i |-> i, hit |-> set[i], v |-> IF set[i] THEN <<vals[i]>> ELSE <<>>])
CClear == vals' = vals /\ MemoOnly /\ Did([do |-> "cclear"])
          /\ set' = [i \in DOMAIN set |-> is("clear_most") /\ i = Len(set) /\ i > 1 /\ set[i]]
CExtend == /\ Len(vals) \in 0..(MaxSlots - 1)
           /\ vals' = Append(vals, Junk)
           /\ set' = IF is("grow_keeps") THEN Append(set, FALSE) ELSE IF is("grow_set") THEN [i \in 1..(Len(set) + 1) |-> i = Len(set) + 1]
                     ELSE [i \in 1..(Len(set) + 1) |-> FALSE]
           /\ MemoOnly /\ Did([do |-> "cextend"])
CCopy == /\ vals' = (IF is("copy_shares") THEN [i \in DOMAIN vals |-> Junk] ELSE vals)
         /\ set' = (IF is("copy_forgets") THEN [i \in DOMAIN set |-> FALSE] ELSE IF is("copy_flags_share") THEN [i \in DOMAIN set |-> TRUE] ELSE set)
         /\ MemoOnly /\ Did([do |-> "ccopy"])

StackNext == SNew \/ Push \/ Pop \/ Reset \/ SCopy
MemoNext == CNew \/ CSet \/ CGet \/ CClear \/ CExtend \/ CCopy
Next == StackNext \/ MemoNext
StackSpec == Init /\ [][StackNext]_vars
MemoSpec == Init /\ [][MemoNext]_vars
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
MemoNow == [i \in DOMAIN vals |-> IF set[i] THEN <<vals[i]>> ELSE <<>>]
A == INSTANCE Containers WITH stack <- SubSeq(data, 1, idx), cap <- Len(data), memo <- MemoNow

(* every step is the step of that name, and answers what it has to            *)
Step ==
  LET o == op' IN
  CASE o.do = "snew"    -> A!StackNew(o.n)
    [] o.do = "spush"   -> A!Push(o.v)
    [] o.do = "spop"    -> o.v = A!Top /\ A!Pop
    [] o.do = "sreset"  -> A!StackReset
    [] o.do = "scopy"   -> A!StackCopy
    [] o.do = "ccopy"   -> A!MemoCopy
    [] o.do = "cnew"    -> A!MemoNew(o.n)
    [] o.do = "cset"    -> A!MemoSet(o.i, o.v)
    [] o.do = "cget"    -> A!MemoGet(o.i) /\ o.hit = (MemoNow[o.i] # <<>>) /\ o.v = MemoNow[o.i]
    [] o.do = "cclear"  -> A!MemoClear
    [] o.do = "cextend" -> A!MemoExtend
Refines == [][Step]_vars
InBounds == idx \in 0..Len(data) /\ Len(vals) = Len(set)

View == <<data, idx, vals, set, op.do = "begin">>
Edge == PrintT(<<"EDGE", TLCFP(View), ToJson(op'), TLCFP(View')>>)
================================================================================
