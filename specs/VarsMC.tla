------------------------------ MODULE VarsMC ------------------------------
(* A scope is read from its beginning to its end. What gives a variable a value is put into a
   table once its right-hand side has been read; a read marks what is in the table; the end of a
   loop marks what the loop gives a value if anything in it reads that. At any point what is
   unmarked in the table is what Vars calls unused. *)
EXTENDS Vars, TLC
CONSTANTS Names, Max, Deep
VARIABLES items, loops, tab, writes, begun
vars == <<items, loops, tab, writes, begun>>
Item(k, v) == [k |-> k, v |-> v, s |-> 1, s2 |-> 0, e |-> 0]
Init == items = <<>> /\ loops = {} /\ tab = {} /\ writes = <<>> /\ begun = <<>>
Here == Len(items) + 1
Read(v) ==
  /\ items' = Append(items, Item("r", v))
  /\ tab' = {IF t.v = v THEN [t EXCEPT !.used = TRUE] ELSE t : t \in tab}
  /\ UNCHANGED <<loops, writes, begun>>
Declare(v) == items' = Append(items, Item("w", v)) /\ tab' = tab \cup {[v |-> v, i |-> Here, used |-> FALSE]} /\ UNCHANGED <<loops, writes, begun>>
Begin(v) == Len(writes) < Deep /\ items' = Append(items, Item("w", v)) /\ writes' = Append(writes, [i |-> Here, d |-> Len(begun)]) /\ UNCHANGED <<loops, tab, begun>>
End ==
  /\ writes # <<>> /\ LET w == writes[Len(writes)] IN
     /\ Len(begun) = w.d
     /\ items' = [items EXCEPT ![w.i].e = Len(items) - w.i]
     /\ tab' = tab \cup {[v |-> items[w.i].v, i |-> w.i, used |-> FALSE]}
     /\ writes' = SubSeq(writes, 1, Len(writes) - 1)
  /\ UNCHANGED <<loops, begun>>
\* a loop is no expression: what is being assigned when it begins is assigned after it only in a closure, another scope
LoopBegin == writes = <<>> /\ Len(begun) < Deep /\ begun' = Append(begun, Here) /\ UNCHANGED <<items, loops, tab, writes>>
LoopEnd ==
  /\ begun # <<>> /\ writes = <<>>
  /\ LET from == begun[Len(begun)] IN
     /\ from < Here
     /\ loops' = loops \cup {[s |-> 1, from |-> from, to |-> Len(items)]}
     /\ tab' = {IF t.i >= from /\ \E j \in from..Len(items) : items[j].k = "r" /\ items[j].v = t.v THEN [t EXCEPT !.used = TRUE] ELSE t : t \in tab}
     /\ begun' = SubSeq(begun, 1, Len(begun) - 1)
  /\ UNCHANGED <<items, writes>>
Next == (Len(items) < Max /\ \E v \in Names : Read(v) \/ Declare(v) \/ Begin(v)) \/ End \/ LoopBegin \/ LoopEnd
Spec == Init /\ [][Next]_vars
Closed == writes = <<>>
Agree == Closed => {t.i : t \in {u \in tab : ~u.used}} = {i \in 1..Len(items) : items[i].k = "w" /\ Verdict(items, loops, {}, i) = "unused"}
\* a read is never counted against what comes after it, but in a loop
OnceUsed == [][\A t \in tab : t.used => \E u \in tab' : u.i = t.i /\ u.used]_vars
===========================================================================
