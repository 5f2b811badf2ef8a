--------------------------- MODULE ContainersTrace ---------------------------
EXTENDS Containers, Num, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", l, Ev.e, name>>) /\ FALSE

SameOpt(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
\* what is shown is the state; in some runs only what is asked for is shown
StackSeen == ("size" \in DOMAIN Ev) =>
             Ck("size", Ev.size = Len(stack')) /\ Ck("empty", Ev.empty = (stack' = <<>>))
             /\ Ck("top", SameOpt(Ev.top, IF stack' = <<>> THEN <<>> ELSE <<stack'[Len(stack')]>>))
MemoSeen == ("view" \in DOMAIN Ev) => Ck("entries", Len(Ev.view) = Len(memo') /\ \A i \in DOMAIN memo' : SameOpt(Ev.view[i], memo'[i]))

TraceInit == ContainersInit /\ l = 1
TraceNext ==
  \/ IsEvent("Begin") /\ stack' = <<>> /\ cap' = 0 /\ memo' = <<>>
  \/ IsEvent("Watch")  /\ UNCHANGED cvars
  \/ IsEvent("SCopy")  /\ StackCopy /\ StackSeen
  \/ IsEvent("CCopy")  /\ MemoCopy /\ MemoSeen
  \/ IsEvent("SNew")   /\ StackNew(Ev.n) /\ StackSeen
  \/ IsEvent("SPush")  /\ Push(Ev.val) /\ StackSeen
  \/ IsEvent("SPop")   /\ Ck("popped", REq(Ev.v, Top)) /\ Pop /\ StackSeen
  \/ IsEvent("SReset") /\ StackReset /\ StackSeen
  \/ IsEvent("CNew")   /\ MemoNew(Ev.n) /\ MemoSeen
  \/ IsEvent("CSet")   /\ MemoSet(Ev.i + 1, Ev.val) /\ MemoSeen
  \/ IsEvent("CClear") /\ MemoClear /\ MemoSeen
  \/ IsEvent("CExtend") /\ MemoExtend /\ MemoSeen
  \/ IsEvent("CGet")   /\ MemoGet(Ev.i + 1)
       /\ Ck("hit", Ev.hit = (memo[Ev.i + 1] # <<>>))
       /\ (IF Ev.hit THEN Ck("value", REq(Ev.v, memo[Ev.i + 1][1])) ELSE TRUE)

TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ PrintT(<<"STOPPED", TLCGet("stats").diameter, "of", Len(Trace)>>) /\ FALSE
=============================================================================
