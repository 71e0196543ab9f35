------------------------------- MODULE OrdMap -------------------------------
(* The storage every index of phpintel is kept in: an ordered map from byte strings to byte
   strings with prefix scans and batches. `m` is what any back end has to answer from, `reopen`
   is the disk back end being closed and opened again. Keys are sequences over the alphabet
   1..A, ordered lexicographically; values are numbers. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS A, MaxKeyLen, Vals
Keys == UNION {[1..n -> 1..A] : n \in 0..MaxKeyLen}

Less(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      d == {i \in 1..n : a[i] # b[i]}
  IN IF d = {} THEN Len(a) < Len(b) ELSE a[Min(d)] < b[Min(d)]
HasPrefix(k, p) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p

Empty == [k \in {} |-> 0]
Put(mm, k, v) == [x \in DOMAIN mm \cup {k} |-> IF x = k THEN v ELSE mm[x]]
Del(mm, k) == [x \in DOMAIN mm \ {k} |-> mm[x]]
\* an operation: <<"put", k, v>> or <<"del", k>>
Apply1(mm, o) == IF o[1] = "put" THEN Put(mm, o[2], o[3]) ELSE Del(mm, o[2])
ApplyAll(mm, ops) == FoldLeft(Apply1, mm, ops)

\* what a scan visits, in order: the keys with the prefix, stopped after `n` of them (0: not stopped)
Scan(mm, p, n) ==
  LET s == SetToSortSeq({k \in DOMAIN mm : HasPrefix(k, p)}, Less)
      t == IF n > 0 /\ n < Len(s) THEN SubSeq(s, 1, n) ELSE s
  IN [i \in 1..Len(t) |-> <<t[i], mm[t[i]]>>]

VARIABLES m, batch   \* batch: <<>> when none is open, else <<operations so far>>
mvars == <<m, batch>>
Init == m = Empty /\ batch = <<>>
Write == \E k \in Keys, v \in Vals : m' = Put(m, k, v) /\ UNCHANGED batch   \* also during a batch
DelKey == \E k \in Keys : m' = Del(m, k) /\ UNCHANGED batch
Begin == batch = <<>> /\ batch' = <<<<>>>> /\ UNCHANGED m
BatchOp == batch # <<>> /\ Len(batch[1]) < 2 /\ UNCHANGED m
           /\ \E k \in Keys : \/ \E v \in Vals : batch' = <<Append(batch[1], <<"put", k, v>>)>>
                              \/ batch' = <<Append(batch[1], <<"del", k>>)>>
Commit == batch # <<>> /\ m' = ApplyAll(m, batch[1]) /\ batch' = <<>>
Fail == batch # <<>> /\ batch' = <<>> /\ UNCHANGED m
Clear == m' = Empty /\ UNCHANGED batch
Reopen == batch = <<>> /\ UNCHANGED mvars
Next == Write \/ DelKey \/ Begin \/ BatchOp \/ Commit \/ Fail \/ Clear \/ Reopen
Spec == Init /\ [][Next]_mvars

\* every scan is sorted, without repetition, and exactly the keys with the prefix
ScanExact == \A p \in Keys :
  LET s == Scan(m, p, 0) IN
  /\ \A i \in 1..Len(s) : HasPrefix(s[i][1], p) /\ m[s[i][1]] = s[i][2]
  /\ \A i \in 1..Len(s) - 1 : Less(s[i][1], s[i+1][1])
  /\ {s[i][1] : i \in 1..Len(s)} = {k \in DOMAIN m : HasPrefix(k, p)}
  /\ \A n \in 1..2 : Scan(m, p, n) = SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
\* a batch is invisible until it is committed, and leaves nothing if it fails
BatchAtomic == [][(batch # batch') => (m' = m \/ m' = ApplyAll(m, batch[1]))]_mvars
=============================================================================
