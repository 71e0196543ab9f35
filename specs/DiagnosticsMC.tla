--------------------------- MODULE DiagnosticsMC ---------------------------
(* The handler of notifications and the delayed computations of every document, step by step: what a
   document was told last is about its last text once nothing is left to happen. A text is its
   version; the index is the version of every document. Shared and Unchecked are mistakes. *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Docs, MaxVersion, Shared, Unchecked
VARIABLES text,      \* the version which is open, 0 if it is closed
          last,      \* the last version of each document
          armed,     \* the version a computation is waiting for, 0 if none
          work,      \* the computations which have begun: [d, v, idx], idx <<>> before the index was read
          handler,   \* what the handler still has to publish at once, a set of at most one [d, v]
          told       \* what was published last: [v, full, idx]
vars == <<text, last, armed, work, handler, told>>
Nothing == [v |-> 0, full |-> FALSE, idx |-> <<>>]
Init == /\ text = [d \in Docs |-> 0] /\ last = text /\ armed = text /\ work = {} /\ handler = {}
        /\ told = [d \in Docs |-> Nothing]
\* one more text of d arrives, opened or changed
Arm(d, v) == armed' = [e \in Docs |-> IF e = d THEN v ELSE IF Shared THEN 0 ELSE armed[e]]
Set(d) == /\ handler = {} /\ last[d] < MaxVersion
          /\ last' = [last EXCEPT ![d] = @ + 1] /\ text' = [text EXCEPT ![d] = last[d] + 1]
          /\ Arm(d, last[d] + 1) /\ handler' = {[d |-> d, v |-> last[d] + 1]} /\ UNCHANGED <<work, told>>
Close(d) == handler = {} /\ text[d] > 0 /\ text' = [text EXCEPT ![d] = 0] /\ UNCHANGED <<last, armed, work, handler, told>>
Say == \E h \in handler : /\ told' = [told EXCEPT ![h.d] = [v |-> h.v, full |-> FALSE, idx |-> <<>>]]
                          /\ handler' = {} /\ UNCHANGED <<text, last, armed, work>>
\* the delay is much longer than the handler takes
Fire(d) == /\ armed[d] > 0 /\ handler = {} /\ ~ \E w \in work : w.d = d
           /\ work' = work \cup {[d |-> d, v |-> armed[d], idx |-> <<>>]} /\ armed' = [armed EXCEPT ![d] = 0]
           /\ UNCHANGED <<text, last, handler, told>>
\* computations run one after another; one about a text which is not open any more is dropped
Compute(w) == /\ w \in work /\ w.idx = <<>> /\ \A x \in work : x.idx = <<>>
              /\ work' = IF Unchecked \/ text[w.d] = w.v THEN (work \ {w}) \cup {[w EXCEPT !.idx = text]} ELSE work \ {w}
              /\ UNCHANGED <<text, last, armed, handler, told>>
Publish(w) == /\ w \in work /\ w.idx # <<>>
              /\ told' = [told EXCEPT ![w.d] = [v |-> w.v, full |-> TRUE, idx |-> w.idx]] /\ work' = work \ {w}
              /\ UNCHANGED <<text, last, armed, handler>>
Next == \E d \in Docs : Set(d) \/ Close(d) \/ Say \/ Fire(d) \/ \E w \in work : Compute(w) \/ Publish(w)
Spec == Init /\ [][Next]_vars
Quiet == handler = {} /\ work = {} /\ \A d \in Docs : armed[d] = 0
\* the last thing said about an open document is everything about its text
Final == Quiet => \A d \in Docs : text[d] > 0 => told[d].v = text[d] /\ told[d].full /\ told[d].idx[d] = text[d]
\* nothing is said about a text which never was
Own == \A d \in Docs : told[d].v <= last[d]
\* a delayed computation is about the text which was open when it looked
Fresh == \A w \in work : w.idx # <<>> => w.idx[w.d] = w.v
=============================================================================
