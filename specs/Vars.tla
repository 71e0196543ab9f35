------------------------------- MODULE Vars -------------------------------
(* Variables of a scope: which of the places that give a variable a value are followed by one
   that reads it. What is written is an item list, in the order of the text; an item at which a
   variable occurs says how:
     "w" a value is given (it takes effect e items later, after the right-hand side),
     "r" it is read,  "m" it may be taken for a read (unset, a compound assignment, an element),
     "n" it is read and given a value (an increment), "c" the same, but only in an expression of
         its new value (.=), "x" it has to be there (catch), so that nothing is said of it.     *)
EXTENDS Naturals, Sequences, FiniteSets
\* s(cope), v(ariable), k, e; loops: [s, from, to] are items which are run again
Afterwards(items, loops, i, j) ==
  /\ i # j /\ items[i].s = items[j].s /\ items[i].v = items[j].v
  /\ \/ j > i + items[i].e
     \/ \E l \in loops : l.s = items[i].s /\ l.from <= i /\ i <= l.to /\ l.from <= j /\ j <= l.to
ReadAfter(items, loops, i, kinds) == \E j \in 1..Len(items) : items[j].k \in kinds /\ Afterwards(items, loops, i, j)
\* what is to be said of an occurrence: "unused", "used" (nothing is reported) or "open";
\* the values of a shared variable can be seen from elsewhere, if it is mentioned at all
Mentioned(items, i) == \E j \in 1..Len(items) : j # i /\ items[i].s \in {items[j].s, items[j].s2} /\ items[j].v = items[i].v
Verdict(items, loops, shared, i) ==
  CASE items[i].k \in {"r", "m", "n"} -> "used"
    [] items[i].k = "x" -> "open"
    [] <<items[i].s, items[i].v>> \in shared /\ Mentioned(items, i) -> "used"
    [] ReadAfter(items, loops, i, {"r", "n"}) -> "used"
    [] ReadAfter(items, loops, i, {"m", "c"}) -> "open"
    [] OTHER -> "unused"
\* the occurrences which are of one variable, and renamed together
Same(items, s, v) == {i \in 1..Len(items) : items[i].v = v /\ (items[i].s = s \/ items[i].s2 = s)}
===========================================================================
