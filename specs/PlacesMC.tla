------------------------------ MODULE PlacesMC ------------------------------
(* Constructs of a text, and where they are after edits around and inside of them. A construct is where
   it begins and ends; the text it denotes is kept beside it. The outline is built by a stack over the
   text, the construct at a character is found by the same walk; both are compared with what the
   intervals say. *)
EXTENDS Text
CONSTANT MaxMarks
VARIABLE marks   \* set of [b, e, s]: what txt has from b to e is s
pvars == <<txt, marks>>
Sub(t, b, e) == SubSeq(t, b + 1, e)
NestedOrApart(x, y) == x.e <= y.b \/ y.e <= x.b \/ (x.b < y.b /\ y.e <= x.e) \/ (y.b < x.b /\ x.e <= y.e) \/ (x.b <= y.b /\ y.e < x.e) \/ (y.b <= x.b /\ x.e < y.e)
PInit == /\ txt \in Texts(MaxLen - 1) /\ marks = {}
Mark == /\ Cardinality(marks) < MaxMarks
        /\ \E b \in 0..Len(txt) : \E e \in (b + 1)..Len(txt) :
             /\ HasPosition(txt, b) /\ HasPosition(txt, e)
             /\ LET m == [b |-> b, e |-> e, s |-> Sub(txt, b, e)]
                IN m \notin marks /\ (\A x \in marks : NestedOrApart(m, x)) /\ marks' = marks \cup {m}
        /\ UNCHANGED txt
\* an edit from i to j: a construct moves, or the edit is inside of it; it does not cut one
Whole(m, i, j) == j <= m.b \/ i >= m.e \/ (m.b < i /\ j < m.e)
Moved(m, i, j, new) ==
  LET d == Len(new) - (j - i)
  IN IF j <= m.b THEN [m EXCEPT !.b = @ + d, !.e = @ + d]
     ELSE IF i >= m.e THEN m
     ELSE [b |-> m.b, e |-> m.e + d, s |-> Splice(m.s, i - m.b, j - m.b, new)]
PEdit == /\ \E i \in 0..Len(txt) : \E j \in i..Len(txt) : \E new \in Texts(1) :
              /\ HasPosition(txt, i) /\ HasPosition(txt, j) /\ \A m \in marks : Whole(m, i, j)
              /\ LET p == PositionOf(txt, i) q == PositionOf(txt, j) IN txt' = Change(txt, <<p[1], p[2], q[1], q[2]>>, new)
              /\ marks' = {Moved(m, i, j, new) : m \in marks}
              /\ Len(txt') <= MaxLen
PNext == Mark \/ PEdit
PSpec == PInit /\ [][PNext]_pvars
\* the range reported for a construct, read back in the text, is around exactly its text
Exact == \A m \in marks : HasPosition(txt, m.b) /\ HasPosition(txt, m.e) =>
  LET p == PositionOf(txt, m.b) q == PositionOf(txt, m.e)
  IN Sub(txt, OffsetOf(txt, p[1], p[2]), OffsetOf(txt, q[1], q[2])) = m.s
\* parents, by the intervals
Around(m) == {x \in marks : x # m /\ x.b <= m.b /\ m.e <= x.e}
Smallest(S) == CHOOSE x \in S : \A y \in S : x.b >= y.b /\ x.e <= y.e
Parent(m) == IF Around(m) = {} THEN {} ELSE {Smallest(Around(m))}
\* parents, by a walk over the text with a stack: at an offset constructs end, then others begin, the longest first
RECURSIVE Begin(_, _, _), Walked(_, _, _)
Begin(S, st, par) ==
  IF S = {} THEN [st |-> st, par |-> par]
  ELSE LET m == CHOOSE m \in S : \A y \in S : y.e <= m.e
       IN Begin(S \ {m}, <<m>> \o st, par \cup {<<m, IF st = <<>> THEN {} ELSE {Head(st)}>>})
RECURSIVE Ended(_, _)
Ended(st, o) == IF st # <<>> /\ Head(st).e = o THEN Ended(Tail(st), o) ELSE st
Walked(o, st, acc) ==
  IF o > Len(txt) THEN acc
  ELSE LET x == Begin({m \in marks : m.b = o}, Ended(st, o), acc.par)
       IN Walked(o + 1, x.st, [par |-> x.par, at |-> Append(acc.at, IF x.st = <<>> THEN {} ELSE {Head(x.st)})])
Walking == Walked(0, <<>>, [par |-> {}, at |-> <<>>])
Outline == LET w == Walking IN w.par = {<<m, Parent(m)>> : m \in marks}
\* the construct at a character is the smallest which covers it
Covering(o) == {m \in marks : m.b <= o /\ o < m.e}
Selected == LET w == Walking IN \A o \in 0..Len(txt) - 1 : w.at[o + 1] = (IF Covering(o) = {} THEN {} ELSE {Smallest(Covering(o))})
=============================================================================
