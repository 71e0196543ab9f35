----------------------------- MODULE FrameTrace ----------------------------
(* Checks a recorded run of concurrent writers against Frame: every message appears on the stream
   whole, once, between the invocation and the return of its write, each writer's in order. *)
EXTENDS Frame, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, open
tvars == <<l, open, vars>>

NoReader == UNCHANGED <<lock, part, stream, avail, rd>>
TInit == Init /\ l = 1 /\ open = {}
E == Trace[l]
Inv == /\ E.e = "inv" /\ E.w \notin open /\ todo[E.w] # <<>> /\ Head(todo[E.w]).n = E.n
       /\ open' = open \cup {E.w} /\ UNCHANGED <<todo, wrote>>
\* Acquire, all Puts and Release of one message
Framed == /\ E.e = "frame" /\ E.ok /\ E.w \in open
          /\ todo[E.w] # <<>> /\ Head(todo[E.w]).n = E.n
          /\ todo' = [todo EXCEPT ![E.w] = Tail(@)]
          /\ wrote' = Append(wrote, [w |-> E.w, n |-> E.n, len |-> 1])
          /\ UNCHANGED open
Ret == /\ E.e = "ret" /\ E.w \in open
       /\ \E k \in 1..Len(wrote) : wrote[k].w = E.w /\ wrote[k].n = E.n
       /\ open' = open \ {E.w} /\ UNCHANGED <<todo, wrote>>
TNext == /\ l <= Len(Trace) /\ (Inv \/ Framed \/ Ret) /\ l' = l + 1 /\ NoReader
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
