------------------------------ MODULE TextGen ------------------------------
(* Sessions of one document: what is opened, the change notifications (each a sequence of
   content changes, applied one after another) and, after each, the whole text and the position
   of every character. *)
EXTENDS Text, Json
CONSTANT MaxNotes
VARIABLES tr, n
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
\* line endings are frequent, and often next to one another
AChar == CASE Pick(1..5) <= 2 -> Pick({LF, CR})
           [] OTHER -> Pick({A_, A_, E2, H3, G4, D_})
AText(k) == [i \in 1..Pick(0..k) |-> AChar]
Positions(t) == [o \in 1..Len(t) + 1 |-> IF HasPosition(t, o - 1) THEN PositionOf(t, o - 1) ELSE <<-1, -1>>]
GInit == \E t \in {[i \in 1..RandomElement(0..14) |-> RandomElement({A_, A_, LF, LF, CR, E2, H3, G4, D_})]} :
  txt = t /\ tr = <<[open |-> t, txt |-> t, pos |-> Positions(t)]>> /\ n = 0
\* one content change of text t: a record and the new text
AnOffset(t) == Pick({o \in 0..Len(t) : HasPosition(t, o)})
\* the way a client may write the offset: at the end of a line, any larger character
Write(t, o) == LET p == PositionOf(t, o) IN
  IF EndFrom(t, o) = o /\ Pick(1..4) = 1 THEN <<p[1], p[2] + Pick({1, 2, 50})>> ELSE p
AChange(t) ==
  IF Pick(1..10) = 1
  THEN LET new == AText(12) IN [range |-> <<>>, text |-> new, after |-> new]
  ELSE LET a == AnOffset(t)
           near == {o \in 0..Len(t) : HasPosition(t, o) /\ o >= a /\ (Pick(1..3) = 1 \/ o <= a + 2)}
           b == Pick(near \cup {a})
           p == Write(t, a)
           q == IF b = a THEN p ELSE Write(t, b)
           new == AText(4)
           r == <<p[1], p[2], q[1], q[2]>>
       IN [range |-> r, text |-> new, after |-> Change(t, r, new)]
RECURSIVE Changes(_, _)
Changes(t, k) == IF k = 0 THEN <<>> ELSE LET c == AChange(t) IN <<c>> \o Changes(c.after, k - 1)
Note == \E cs \in {Changes(txt, Pick({1, 1, 1, 2, 3}))} :
  LET t == cs[Len(cs)].after IN
  /\ txt' = t
  /\ tr' = Append(tr, [changes |-> [i \in 1..Len(cs) |-> [range |-> cs[i].range, text |-> cs[i].text]],
                       txt |-> t, pos |-> Positions(t)])
GNext == \/ n >= 0 /\ n < MaxNotes /\ n' = n + 1 /\ Note
         \/ n = MaxNotes /\ PrintT("@@" \o ToJson(tr)) /\ n' = -1 /\ UNCHANGED <<txt, tr>>
GSpec == GInit /\ [][GNext]_<<txt, tr, n>>
=============================================================================
