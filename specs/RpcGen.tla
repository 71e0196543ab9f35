------------------------------- MODULE RpcGen ------------------------------
(* Random behaviours of Rpc for replay. Handlers start as soon as the turn reaches them
   (Start has priority), so the observation before every environment step is determined. *)
EXTENDS Rpc, Json
CONSTANT Depth
VARIABLE hist

GScripts == {<<>>, <<"reply">>, <<"fail">>, <<"bad">>, <<"par">>, <<"par", "reply">>,
             <<"reply", "par">>, <<"reply", "reply">>, <<"reply", "fail">>, <<"call", "reply">>,
             <<"par", "call", "reply">>, <<"reply", "call">>, <<"par", "par", "fail">>,
             <<"call", "call", "bad">>, <<"par", "call">>, <<"bad", "reply">>}
GIdKinds == {"num", "str"}
GJunk == {"unknown", "unknownstr", "brace", "array", "empty", "version", "number", "null", "noid", "badid", "errunknown"}

Quiet == \A i \in 1..Len(msgs) : ~CanStart(i)

Obs == [started |-> Cardinality({i \in 1..Len(msgs) : msgs[i].st # "wait"}),
        pos  |-> [i \in 1..Len(msgs) |-> msgs[i].pos],
        done |-> [i \in 1..Len(msgs) |-> msgs[i].st = "done"],
        out  |-> out,
        calls |-> [c \in 1..Len(calls) |-> calls[c].st]]

H(r) == hist' = Append(hist, [a |-> r, o |-> Obs])

GInit == Init /\ hist = <<>>
GStart == (\E i \in 1..Len(msgs) : Start(i)) /\ UNCHANGED hist
Env ==
  /\ Quiet
  /\ Len(hist) < Depth
  /\ \/ \E n \in {RandomElement({Len(hist) >= 0, FALSE})}, k \in {RandomElement(IF Len(hist) >= 0 THEN IdKinds ELSE {})},
           s \in {RandomElement(IF Len(hist) >= 0 THEN Scripts ELSE {})} :
         Arrive(n, k, s) /\ H([op |-> "arrive", note |-> n, idk |-> k, script |-> s])
     \/ \E i \in 1..Len(msgs) : Step(i) /\ H([op |-> "step", i |-> i, can |-> msgs[i].can])
     \/ \E i \in 1..Len(msgs) : Cancel(i) /\ H([op |-> "cancel", i |-> i])
     \/ \E i \in 1..Len(msgs) : CancelGone(i) /\ H([op |-> "cancel", i |-> i])
     \/ DrvCall /\ H([op |-> "call"])
     \/ \E c \in 1..Len(calls), h \in {"ok", "err"} : Respond(c, h) /\ H([op |-> "respond", c |-> c, how |-> h])
     \/ \E c \in 1..Len(calls) : Abort(c) /\ H([op |-> "abort", c |-> c])
     \/ \E k \in {RandomElement(IF Len(hist) >= 0 THEN JunkKinds ELSE {})} : Junk(k) /\ H([op |-> "junk", k |-> k])
Fin == /\ Quiet /\ Len(hist) = Depth
       /\ PrintT("@@" \o ToJson([h |-> hist, fin |-> Obs]))
       /\ hist' = Append(hist, [a |-> [op |-> "end"], o |-> Obs])
       /\ UNCHANGED vars
GNext == GStart \/ Env \/ Fin
GSpec == GInit /\ [][GNext]_<<vars, hist>>
=============================================================================
