----------------------------- MODULE SearchMC -----------------------------
(* Every search over every index of a few symbols, for lists of two kinds. *)
EXTENDS Search
CONSTANTS Syms, Limit, MaxLen
VARIABLES idx, ok, limit, kind, word, pos, seen, found, complete, pc
vars == <<idx, ok, limit, kind, word, pos, seen, found, complete, pc>>
Kinds == {1, 2}
Words == 1..2
\* idx: for each kind and word of the keyword the symbols in the order of the index; the index can hold a symbol more than once
Orders == UNION {[1..l -> Syms] : l \in 0..MaxLen}
Init == /\ idx \in [Kinds -> [Words -> Orders]] /\ ok \in SUBSET Syms /\ limit \in 0..Limit
        /\ kind = 1 /\ word = 1 /\ pos = 1 /\ seen = {} /\ found = [k \in Kinds |-> <<>>] /\ complete = TRUE /\ pc = "scan"
At == idx[kind][word]
Advance == IF kind = 2 THEN /\ pc' = "done" /\ UNCHANGED <<kind, word, pos, seen>>
           ELSE /\ kind' = 2 /\ word' = 1 /\ pos' = 1 /\ seen' = {} /\ UNCHANGED pc
Scan == /\ pc = "scan"
        /\ IF pos > Len(At) THEN
             IF word = 1 THEN word' = 2 /\ pos' = 1 /\ UNCHANGED <<kind, seen, found, complete, pc>>
             ELSE Advance /\ UNCHANGED <<found, complete>>
           ELSE LET x == At[pos] IN
             IF x \in seen \/ x \notin ok THEN pos' = pos + 1 /\ seen' = seen \cup {x} /\ UNCHANGED <<kind, word, found, complete, pc>>
             ELSE /\ found' = [found EXCEPT ![kind] = Append(@, x)]
                  \* every kind has the whole limit; reaching it ends the search and it is said
                  /\ IF limit > 0 /\ Len(found'[kind]) >= limit THEN complete' = FALSE /\ Advance
                     ELSE pos' = pos + 1 /\ seen' = seen \cup {x} /\ UNCHANGED <<kind, word, complete, pc>>
        /\ UNCHANGED <<idx, ok, limit>>
Spec == Init /\ [][Scan]_vars
All == [k \in Kinds |-> ok \cap UNION {Ran(idx[k][w]) : w \in Words}]
Answered == pc = "done" => RightList(found, complete, All, limit)
\* without need nothing is called incomplete
NotLazy == pc = "done" /\ ~complete => limit > 0 /\ \E k \in Kinds : Len(found[k]) = limit
===========================================================================
