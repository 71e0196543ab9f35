------------------------------ MODULE CallsMC ------------------------------
(* All texts up to a length: the call found by the stack is the innermost one around the place, its
   commas are those which no other call is around, and what is between an argument's parentheses does
   not change which argument the places after it are in. *)
EXTENDS Calls, FiniteSets
CONSTANT MaxLen
VARIABLE ws
Words == {"(", ")", "[", "]", ",", "x", "s"}
Init == ws = <<>>
Nested(q) == \A i \in DOMAIN q : q[i] \in Closers => LET s == Stacks(SubSeq(q, 1, i - 1), 1, <<>>, <<>>) IN i > 1 /\ s[i - 1] # <<>> /\ Match(Top(s[i - 1]).w, q[i])
Next == Len(ws) < MaxLen /\ \E w \in Words : ws' = Append(ws, w) /\ Nested(ws')
Spec == Init /\ [][Next]_ws
\* by counting: the openers around the place after i are those which more close after than open
Count(q, a, b, S) == Cardinality({j \in a..b : q[j] \in S})
IsOpen(q, j, i) == q[j] \in Openers /\ \A m \in (j + 1)..i : Count(q, j + 1, m, Closers) <= Count(q, j + 1, m, Openers)
Around(q, i) == {j \in 1..i : IsOpen(q, j, i)}
Innermost(q, i) == IF Around(q, i) = {} THEN 0 ELSE CHOOSE j \in Around(q, i) : \A m \in Around(q, i) : m <= j
Number(q, i) == LET j == Innermost(q, i) IN Cardinality({m \in (j + 1)..i : q[m] = "," /\ Innermost(q, m) = j})
Agree == LET sts == AllStacks(ws) IN \A i \in DOMAIN ws :
  /\ (sts[i] = <<>>) = (Innermost(ws, i) = 0)
  /\ sts[i] # <<>> => Top(sts[i]).at = Innermost(ws, i) /\ Top(sts[i]).k = Number(ws, i)
\* a call written into an argument
Insert(q, i, r) == SubSeq(q, 1, i) \o r \o SubSeq(q, i + 1, Len(q))
Unmoved == \A i \in DOMAIN ws : \A r \in {<<"(", "x", ",", "x", ")">>, <<"[", ",", "]">>, <<"x">>, <<"s">>} :
  LET q == Insert(ws, i, r) a == AllStacks(ws) b == AllStacks(q)
  IN \A m \in i..Len(ws) : Len(a[m]) = Len(b[m + Len(r)]) /\ (a[m] # <<>> => Top(a[m]).k = Top(b[m + Len(r)]).k)
\* the arguments of a call are apart, in order, and between its parentheses
Apart == LET sts == AllStacks(ws) as == Arguments(ws, sts) IN \A x \in as :
  /\ x.at < x.from /\ x.from <= x.to /\ Solid(ws, x.from) /\ Solid(ws, x.to)
  /\ Top(sts[x.from - 1]).at = x.at /\ Top(sts[x.from - 1]).k = x.k
  /\ \A y \in as : y.at = x.at /\ y # x => y.k # x.k /\ (y.k < x.k => y.to < x.from)
=============================================================================
