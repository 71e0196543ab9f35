------------------------------- MODULE Calls -------------------------------
(* Calls being written. A text is a sequence of tokens, of which these matter: "(" and ")" around the
   arguments of a call, "," between them, "[" and "]" around what hides the calls it is in (the body of
   a closure, an array), and "s" for spaces and comments, which are part of no argument.
   The call at a place is the innermost one whose parentheses are around it. *)
EXTENDS Naturals, Sequences
Openers == {"(", "["}
Closers == {")", "]"}
Match(o, c) == (o = "(" /\ c = ")") \/ (o = "[" /\ c = "]")
Top(st) == st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
\* the openers which are open after the tokens, each with the number of commas since
Step(st, w, i) ==
  CASE w \in Openers -> Append(st, [at |-> i, w |-> w, k |-> 0])
    [] w \in Closers /\ st # <<>> -> Pop(st)
    [] w = "," /\ st # <<>> -> [st EXCEPT ![Len(st)].k = @ + 1]
    [] OTHER -> st
RECURSIVE Stacks(_, _, _, _)
Stacks(ws, i, st, acc) == IF i > Len(ws) THEN acc ELSE LET s == Step(st, ws[i], i) IN Stacks(ws, i + 1, s, Append(acc, s))
\* the stack after each of the tokens
AllStacks(ws) == Stacks(ws, 1, <<>>, <<>>)
Solid(ws, i) == ws[i] # "s"
FirstSolid(ws, i) == IF \E j \in i..Len(ws) : Solid(ws, j) THEN CHOOSE j \in i..Len(ws) : Solid(ws, j) /\ \A k \in i..(j - 1) : ~Solid(ws, k) ELSE 0
LastSolid(ws, i) == IF \E j \in 1..i : Solid(ws, j) THEN CHOOSE j \in 1..i : Solid(ws, j) /\ \A k \in (j + 1)..i : ~Solid(ws, k) ELSE 0
\* the arguments which end at the comma or parenthesis i: at most one, [at: of the call, k: its number, from, to: its tokens]
Ended(ws, sts, i) ==
  IF i = 1 \/ ws[i] \notin {",", ")"} \/ sts[i - 1] = <<>> \/ Top(sts[i - 1]).w # "(" THEN {}
  ELSE LET e == Top(sts[i - 1])
           prev == CHOOSE j \in e.at..(i - 1) : (j = e.at \/ (ws[j] = "," /\ sts[j] # <<>> /\ Top(sts[j]).at = e.at))
                                             /\ \A m \in (j + 1)..(i - 1) : ~(ws[m] = "," /\ sts[m] # <<>> /\ Top(sts[m]).at = e.at)
           from == FirstSolid(ws, prev + 1) to == LastSolid(ws, i - 1)
       IN IF from = i THEN {} ELSE {[at |-> e.at, k |-> e.k, from |-> from, to |-> to]}
Arguments(ws, sts) == UNION {Ended(ws, sts, i) : i \in 1..Len(ws)}
=============================================================================
