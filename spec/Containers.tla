------------------------------ MODULE Containers ------------------------------
(* K23: the work stack and the memo as the engine relies on them.             *)
EXTENDS Integers, Sequences

VARIABLES stack, cap,     \* elements pushed, oldest first; capacity
          memo            \* per slot <<>> or <<value>>

cvars == <<stack, cap, memo>>

StackNew(n)  == stack' = <<>> /\ cap' = n /\ UNCHANGED memo
Push(v)      == Len(stack) < cap /\ stack' = Append(stack, v) /\ UNCHANGED <<cap, memo>>
Top          == stack[Len(stack)]
Pop          == stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<cap, memo>>
StackReset   == stack' = <<>> /\ UNCHANGED <<cap, memo>>
\* one goes on with a copy, the other is used for something else
StackCopy    == UNCHANGED cvars
MemoCopy     == UNCHANGED cvars

MemoNew(n)   == memo' = [i \in 1..n |-> <<>>] /\ UNCHANGED <<stack, cap>>
MemoSet(i, v) == i \in DOMAIN memo /\ memo' = [memo EXCEPT ![i] = <<v>>] /\ UNCHANGED <<stack, cap>>
MemoClear    == memo' = [i \in DOMAIN memo |-> <<>>] /\ UNCHANGED <<stack, cap>>
MemoExtend   == memo' = [i \in 1..(Len(memo) + 1) |-> <<>>] /\ UNCHANGED <<stack, cap>>
MemoGet(i)   == i \in DOMAIN memo /\ UNCHANGED cvars

ContainersInit == stack = <<>> /\ cap = 0 /\ memo = <<>>
=============================================================================
