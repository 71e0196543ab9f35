-------------------------------- MODULE Rpc --------------------------------
(***************************************************************************)
(* One end of a JSON-RPC connection (internal/jsonrpc2): a reader that     *)
(* demultiplexes requests, notifications and responses; a chain of         *)
(* handlers, each started when its predecessor has released the turn; and  *)
(* outgoing calls waiting for their responses.                             *)
(*                                                                         *)
(* One action per step that is visible to a peer or to a handler:          *)
(*   Arrive   the reader takes a request or notification off the stream    *)
(*   Start    the turn reaches the next message and its handler begins     *)
(*   Step     a handler performs the next act of its script                *)
(*   Cancel   the id of a request is cancelled                             *)
(*   DrvCall  somebody other than a handler makes an outgoing call         *)
(*   Respond  the peer answers an outgoing call (also late or twice)       *)
(*   Junk     the peer sends an unknown response or a malformed message    *)
(*   Abort    the context of a driver call is cancelled                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS IdKinds,
          MaxMsgs,   \* incoming requests and notifications
          MaxDrv,    \* outgoing calls made outside handlers
          MaxCalls,  \* bound on all outgoing calls (for quantifiers)
          Scripts,   \* what handlers may do: set of sequences of acts
          JunkKinds  \* messages that must be ignored

VARIABLES msgs, calls, out

vars == <<msgs, calls, out>>

Acts == {"par", "reply", "fail", "bad", "call"}

Msg(note, idk, script) ==
  [note |-> note, idk |-> idk, script |-> script, pos |-> 0, st |-> "wait",
   rel |-> FALSE, rep |-> FALSE, can |-> FALSE, call |-> 0]

Init == msgs = <<>> /\ calls = <<>> /\ out = <<>>

\* the first message whose handler has not begun, if the turn has reached it
CanStart(i) == /\ i \in 1..Len(msgs)
               /\ msgs[i].st = "wait"
               /\ \A j \in 1..(i-1) : msgs[j].st # "wait" /\ msgs[j].rel

Arrive(note, idk, script) ==
  /\ Len(msgs) < MaxMsgs
  /\ msgs' = Append(msgs, Msg(note, idk, script))
  /\ UNCHANGED <<calls, out>>

Start(i) ==
  /\ CanStart(i)
  /\ msgs' = [msgs EXCEPT ![i].st = "run"]
  /\ UNCHANGED <<calls, out>>

Answer(i, what) == Append(out, [i |-> i, what |-> what])

\* returning without having replied answers a request with an error, and
\* releases the turn in any case
Return(i) ==
  /\ msgs[i].st = "run" /\ msgs[i].pos = Len(msgs[i].script)
  /\ msgs' = [msgs EXCEPT ![i].st = "done", ![i].rel = TRUE,
                          ![i].rep = @ \/ ~msgs[i].note]
  /\ out' = IF msgs[i].note \/ msgs[i].rep THEN out ELSE Answer(i, "none")
  /\ UNCHANGED calls

Act(i) == msgs[i].script[msgs[i].pos + 1]

Step(i) ==
  \/ Return(i)
  \/ /\ msgs[i].st = "run" /\ msgs[i].pos < Len(msgs[i].script)
     /\ LET a == Act(i) IN
        CASE a = "par" ->
               /\ msgs' = [msgs EXCEPT ![i].pos = @ + 1, ![i].rel = TRUE]
               /\ UNCHANGED <<calls, out>>
          [] a \in {"reply", "fail", "bad"} ->
               /\ msgs' = [msgs EXCEPT ![i].pos = @ + 1,
                              ![i].rel = @ \/ (~msgs[i].note /\ ~msgs[i].rep),
                              ![i].rep = @ \/ ~msgs[i].note]
               /\ out' = IF msgs[i].note \/ msgs[i].rep THEN out ELSE Answer(i, a)
               /\ UNCHANGED calls
          [] a = "call" ->
               /\ IF msgs[i].can
                  THEN /\ calls' = Append(calls, [own |-> i, st |-> "cancelled", sent |-> FALSE])
                       /\ msgs' = [msgs EXCEPT ![i].pos = @ + 1]
                  ELSE /\ calls' = Append(calls, [own |-> i, st |-> "pending", sent |-> TRUE])
                       /\ msgs' = [msgs EXCEPT ![i].pos = @ + 1, ![i].st = "incall",
                                               ![i].call = Len(calls) + 1]
               /\ UNCHANGED out

Cancel(i) ==
  /\ i \in 1..Len(msgs) /\ ~msgs[i].note /\ msgs[i].st # "done" /\ ~msgs[i].can
  /\ IF msgs[i].st = "incall"
     THEN /\ calls' = [calls EXCEPT ![msgs[i].call].st = "cancelled"]
          /\ msgs' = [msgs EXCEPT ![i].can = TRUE, ![i].st = "run"]
     ELSE /\ msgs' = [msgs EXCEPT ![i].can = TRUE]
          /\ UNCHANGED calls
  /\ UNCHANGED out

\* cancelling the id of a request that is over, or of none, does nothing
CancelGone(i) ==
  /\ i \in 1..Len(msgs) /\ ~msgs[i].note /\ msgs[i].st = "done"
  /\ UNCHANGED vars

DrvCall ==
  /\ Cardinality({c \in 1..Len(calls) : calls[c].own = 0}) < MaxDrv
  /\ calls' = Append(calls, [own |-> 0, st |-> "pending", sent |-> TRUE])
  /\ UNCHANGED <<msgs, out>>

Respond(c, how) ==
  /\ c \in 1..Len(calls) /\ calls[c].sent
  /\ IF calls[c].st = "pending"
     THEN /\ calls' = [calls EXCEPT ![c].st = how]
          /\ msgs' = IF calls[c].own = 0 THEN msgs
                     ELSE [msgs EXCEPT ![calls[c].own].st = "run"]
     ELSE UNCHANGED <<calls, msgs>>
  /\ UNCHANGED out

Abort(c) ==
  /\ c \in 1..Len(calls) /\ calls[c].own = 0 /\ calls[c].st = "pending"
  /\ calls' = [calls EXCEPT ![c].st = "cancelled"]
  /\ UNCHANGED <<msgs, out>>

Junk(k) == k \in JunkKinds /\ UNCHANGED vars

Next ==
  \/ \E n \in BOOLEAN, k \in IdKinds, s \in Scripts : Arrive(n, k, s)
  \/ \E i \in 1..Len(msgs) : Start(i) \/ Step(i) \/ Cancel(i) \/ CancelGone(i)
  \/ DrvCall
  \/ \E c \in 1..Len(calls) : (\E h \in {"ok", "err"} : Respond(c, h)) \/ Abort(c)
  \/ \E k \in JunkKinds : Junk(k)

Spec == Init /\ [][Next]_vars

FairSpec == /\ Spec
            /\ WF_vars(\E i \in 1..Len(msgs) : Start(i))
            /\ \A i \in 1..MaxMsgs : WF_vars(i <= Len(msgs) /\ Step(i))
            /\ \A c \in 1..MaxCalls : WF_vars(c <= Len(calls) /\ calls[c].st = "pending" /\ Respond(c, "ok"))

---------------------------------------------------------------------------
Answers(i) == Cardinality({k \in 1..Len(out) : out[k].i = i})

\* C03
AtMostOnce == \A i \in 1..Len(msgs) : Answers(i) <= 1
DoneIsAnswered == \A i \in 1..Len(msgs) :
                    (msgs[i].st = "done") => Answers(i) = (IF msgs[i].note THEN 0 ELSE 1)
NotesUnanswered == \A i \in 1..Len(msgs) : msgs[i].note => Answers(i) = 0
InCallPending == \A i \in 1..Len(msgs) : msgs[i].st = "incall" => calls[msgs[i].call].st = "pending"
\* C04
StartsInOrder == \A i \in 1..Len(msgs) : msgs[i].st # "wait" =>
                   \A j \in 1..(i-1) : msgs[j].st # "wait" /\ msgs[j].rel
SerialUnique == Cardinality({i \in 1..Len(msgs) : msgs[i].st \in {"run", "incall"} /\ ~msgs[i].rel}) <= 1
\* liveness (FairSpec)
AllAnswered == \A i \in 1..MaxMsgs :
   (i <= Len(msgs) /\ ~msgs[i].note) ~> (i <= Len(msgs) /\ Answers(i) = 1)
AllStart == \A i \in 1..MaxMsgs : (i <= Len(msgs)) ~> (i <= Len(msgs) /\ msgs[i].st # "wait")
CallsReturn == \A c \in 1..MaxCalls : (c <= Len(calls)) ~> (c <= Len(calls) /\ calls[c].st # "pending")
Once == [][\A i \in 1..Len(msgs) : msgs[i].rep => msgs'[i].rep]_vars
=============================================================================
