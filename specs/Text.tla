-------------------------------- MODULE Text --------------------------------
(* The text of an open document as the Language Server Protocol sees it: lines end at LF, CRLF
   or a lone CR; a position is a line and a number of UTF-16 code units, and one beyond the end
   of its line means the end of the line. Characters are the numbers below; a text is a sequence
   of them. Byte widths are those of UTF-8. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
A_ == 1   LF == 2   CR == 3   E2 == 4   H3 == 5   G4 == 6   D_ == 7
\*          a         \n        \r      é (2,1)   漢 (3,1)  😀 (4,2)    $
Width16(c) == IF c = G4 THEN 2 ELSE 1
Bytes(c) == CASE c = E2 -> 2 [] c = H3 -> 3 [] c = G4 -> 4 [] OTHER -> 1

\* is there a line ending whose last character is t[i]
EndsLine(t, i) == t[i] = LF \/ (t[i] = CR /\ ~(i < Len(t) /\ t[i+1] = LF))
\* offsets (numbers of characters before) at which lines start, in order
RECURSIVE StartsFrom(_, _)
StartsFrom(t, i) == IF i > Len(t) THEN <<>>
                    ELSE IF EndsLine(t, i) THEN <<i>> \o StartsFrom(t, i + 1) ELSE StartsFrom(t, i + 1)
LineStarts(t) == <<0>> \o StartsFrom(t, 1)
\* the line (from 0) an offset lies in
LineOf(t, o) == Max({k \in 1..Len(LineStarts(t)) : LineStarts(t)[k] <= o}) - 1
\* the offset of the end of the line which starts at s, before its line ending
RECURSIVE EndFrom(_, _)
EndFrom(t, o) == IF o = Len(t) \/ t[o+1] \in {LF, CR} THEN o ELSE EndFrom(t, o + 1)
RECURSIVE Units(_, _, _)
Units(t, a, b) == IF a >= b THEN 0 ELSE Width16(t[a+1]) + Units(t, a + 1, b)
\* inside a CRLF there is no position
HasPosition(t, o) == ~(o > 0 /\ o < Len(t) /\ t[o] = CR /\ t[o+1] = LF)
PositionOf(t, o) == LET l == LineOf(t, o) IN <<l, Units(t, LineStarts(t)[l+1], o)>>
RECURSIVE Walk(_, _, _, _)
Walk(t, o, e, u) == IF u <= 0 \/ o = e THEN o ELSE Walk(t, o + 1, e, u - Width16(t[o+1]))
OffsetOf(t, l, ch) == LET s == LineStarts(t)[l+1] IN Walk(t, s, EndFrom(t, s), ch)

Splice(t, i, j, new) == SubSeq(t, 1, i) \o new \o SubSeq(t, j + 1, Len(t))
\* a content change: <<>> for a full replacement, else <<l1, c1, l2, c2>>
Change(t, range, new) ==
  IF range = <<>> THEN new
  ELSE Splice(t, OffsetOf(t, range[1], range[2]), OffsetOf(t, range[3], range[4]), new)

CONSTANTS Alphabet, MaxLen
VARIABLE txt
Texts(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == txt = <<>>
Edit == \E i \in 0..Len(txt) : \E j \in i..Len(txt) : \E new \in Texts(1) :
          /\ HasPosition(txt, i) /\ HasPosition(txt, j)
          /\ LET p == PositionOf(txt, i) q == PositionOf(txt, j) IN
             txt' = Change(txt, <<p[1], p[2], q[1], q[2]>>, new)
Replace == \E new \in Texts(2) : txt' = Change(txt, <<>>, new)
Next == (Edit \/ Replace) /\ Len(txt') <= MaxLen
Spec == Init /\ [][Next]_txt

RoundTrip == \A o \in 0..Len(txt) : HasPosition(txt, o) =>
               LET p == PositionOf(txt, o) IN OffsetOf(txt, p[1], p[2]) = o
BeyondLineIsItsEnd == \A l \in 0..Len(LineStarts(txt)) - 1 :
  LET e == EndFrom(txt, LineStarts(txt)[l+1]) IN
  OffsetOf(txt, l, 99) = e /\ PositionOf(txt, e)[1] = l
Ordered == \A o \in 1..Len(txt) : LET p == PositionOf(txt, o - 1) q == PositionOf(txt, o) IN
  p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
LinesCountEndings == Len(LineStarts(txt)) = 1 + Cardinality({i \in 1..Len(txt) : EndsLine(txt, i)})
=============================================================================
