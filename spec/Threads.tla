------------------------------- MODULE Threads -------------------------------
(* Separately loaded models used at the same time (K19).  Every thread owns   *)
(* one model and carries out its program, call by call; a pose is found in    *)
(* the small steps of the implementation: from the link up to the first       *)
(* memoized one or the root, then down again, multiplying and memoizing.      *)
(* Steps of different threads interleave in every order.  Where a mistake     *)
(* makes models share working memory, some of these orders show it, though    *)
(* no order of whole calls does (Together = FALSE).                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Variant, Threads,
          Links,        \* a chain of so many links; link l > 1 hangs on joint l
          MaxCalls,     \* length of a program
          Together      \* do calls of different threads overlap?

VARIABLES q,        \* thread -> joint values, 1 is the base
          todo,     \* thread -> number of calls left
          now,      \* thread -> the call being carried out, <<>> between calls
          pc, cur,  \* thread -> where it is in the call
          stack, memo, acc,   \* working memory
          answer    \* thread -> the last answer, <<>> before

vars == <<q, todo, now, pc, cur, stack, memo, acc, answer>>
is(v) == Variant = v
Nodes == 1..Links

(* whose memory a thread works in                                             *)
OwnStack(t) == IF is("shared_stack") THEN 0 ELSE t
OwnMemo(t)  == IF is("shared_memo") THEN 0 ELSE t
OwnAcc(t)   == IF is("shared_result") THEN 0 ELSE t
Places == {0} \union Threads

(* what may be asked: a joint (or the base, 1) set to another value; a pose   *)
Ops == {<<"set", l, v>> : l \in {1, 2, Links}, v \in {1, 2}} \union {<<"pose", l>> : l \in Nodes \ {1}}

(* the pose of a link: the values on the path to it                           *)
Pose(t, l) == SubSeq(q[t], 1, l)

Blank == [l \in Nodes |-> <<>>]
Init == /\ q = [t \in Threads |-> [l \in Nodes |-> 0]]
        /\ todo = [t \in Threads |-> MaxCalls]
        /\ now = [t \in Threads |-> <<>>] /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> 1]
        /\ stack = [p \in Places |-> <<>>] /\ memo = [p \in Places |-> Blank] /\ acc = [p \in Places |-> <<>>]
        /\ answer = [t \in Threads |-> <<>>]

Free(t) == Together \/ \A u \in Threads \ {t} : pc[u] = "idle"

Begin(t, o) ==
  /\ pc[t] = "idle" /\ todo[t] > 0 /\ Free(t)
  /\ todo' = [todo EXCEPT ![t] = @ - 1]
  /\ answer' = [answer EXCEPT ![t] = <<>>]
  /\ now' = [now EXCEPT ![t] = o]
  /\ IF o[1] = "set"
     THEN /\ q' = [q EXCEPT ![t][o[2]] = o[3]]
          /\ pc' = [pc EXCEPT ![t] = "drop"]
          /\ UNCHANGED <<cur, stack, memo, acc>>
     ELSE /\ stack' = [stack EXCEPT ![OwnStack(t)] = <<>>]
          /\ cur' = [cur EXCEPT ![t] = o[2]]
          /\ pc' = [pc EXCEPT ![t] = "up"]
          /\ UNCHANGED <<q, memo, acc>>

Drop(t) ==      \* after a change nothing memoized is kept
  /\ pc[t] = "drop"
  /\ memo' = [memo EXCEPT ![OwnMemo(t)] = Blank]
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ now' = [now EXCEPT ![t] = <<>>]
  /\ UNCHANGED <<q, todo, cur, stack, acc, answer>>

Up(t) ==
  /\ pc[t] = "up"
  /\ IF cur[t] = 1 \/ memo[OwnMemo(t)][cur[t]] # <<>>
     THEN /\ acc' = [acc EXCEPT ![OwnAcc(t)] = IF cur[t] = 1 THEN <<q[t][1]>> ELSE memo[OwnMemo(t)][cur[t]]]
          /\ pc' = [pc EXCEPT ![t] = "down"]
          /\ UNCHANGED <<cur, stack>>
     ELSE /\ stack' = [stack EXCEPT ![OwnStack(t)] = Append(@, cur[t])]
          /\ cur' = [cur EXCEPT ![t] = @ - 1]
          /\ UNCHANGED <<pc, acc>>
  /\ UNCHANGED <<q, todo, now, memo, answer>>

Down(t) ==
  /\ pc[t] = "down"
  /\ IF stack[OwnStack(t)] = <<>>
     THEN /\ answer' = [answer EXCEPT ![t] = acc[OwnAcc(t)]]
          /\ pc' = [pc EXCEPT ![t] = "told"]
          /\ UNCHANGED <<stack, memo, acc>>
     ELSE LET c == stack[OwnStack(t)][Len(stack[OwnStack(t)])]
              x == Append(acc[OwnAcc(t)], q[t][c])
          IN /\ stack' = [stack EXCEPT ![OwnStack(t)] = SubSeq(@, 1, Len(@) - 1)]
             /\ acc' = [acc EXCEPT ![OwnAcc(t)] = x]
             /\ memo' = [memo EXCEPT ![OwnMemo(t)][c] = x]
             /\ UNCHANGED <<pc, answer>>
  /\ UNCHANGED <<q, todo, now, cur>>

Told(t) == /\ pc[t] = "told" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ now' = [now EXCEPT ![t] = <<>>]
           /\ UNCHANGED <<q, todo, cur, stack, memo, acc, answer>>

Next == \E t \in Threads : (\E o \in Ops : Begin(t, o)) \/ Drop(t) \/ Up(t) \/ Down(t) \/ Told(t)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* every answer is that of the model alone                                    *)
Alone == \A t \in Threads : pc[t] = "told" => answer[t] = Pose(t, now[t][2])
(* nobody touches what another one is working with                            *)
Bounded == \A p \in Places : Len(stack[p]) <= Links
MemoRight == \A t \in Threads : pc[t] # "drop" => \A l \in Nodes : memo[OwnMemo(t)][l] # <<>> => memo[OwnMemo(t)][l] = Pose(t, l)
(* it always ends: no thread waits for another when calls may overlap         *)
NoWaiting == Together => \A t \in Threads : pc[t] # "idle" => ENABLED (Drop(t) \/ Up(t) \/ Down(t) \/ Told(t))

ASSUME PrintT(<<"OPS", ToJson(SetToSeq(Ops))>>)
================================================================================
