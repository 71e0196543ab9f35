----------------------------- MODULE OrdMapGen -----------------------------
(* Random histories of storage operations with the answers OrdMap gives. *)
EXTENDS OrdMap, Json
CONSTANT MaxOps
VARIABLES tr, n, todo, fails
\* todo: operations left in the open batch (-1: no batch open)
gvars == <<tr, n, todo, fails>>
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
KeyOf(l) == [i \in 1..l |-> Pick(1..A)]
\* mostly short keys, so that histories meet the same key and prefixes of it again
AKey == CASE Pick(1..10) = 1 -> <<>>
          [] Pick(1..3) # 1 /\ DOMAIN m # {} -> Pick(DOMAIN m)
          [] OTHER -> KeyOf(Pick(1..MaxKeyLen))
APrefix == CASE Pick(1..6) = 1 -> <<>>
             [] Pick(1..3) # 1 /\ DOMAIN m # {} -> LET k == Pick(DOMAIN m) IN SubSeq(k, 1, Pick(0..Len(k)))
             [] OTHER -> KeyOf(Pick(1..MaxKeyLen))

GInit == Init /\ tr = <<>> /\ n = 0 /\ todo = -1 /\ fails = FALSE
Do(o) == tr' = Append(tr, o) /\ n' = n + 1
GWrite == \E k \in {AKey}, v \in {Pick(Vals)} :
  m' = Put(m, k, v) /\ Do([o |-> "put", k |-> k, v |-> v]) /\ UNCHANGED <<batch, todo, fails>>
GDel == \E k \in {AKey} : m' = Del(m, k) /\ Do([o |-> "del", k |-> k]) /\ UNCHANGED <<batch, todo, fails>>
GGet == \E k \in {AKey} : Do([o |-> "get", k |-> k, e |-> IF k \in DOMAIN m THEN <<m[k]>> ELSE <<>>])
                          /\ UNCHANGED <<m, batch, todo, fails>>
GScan == \E p \in {APrefix}, s \in {Pick({0, 0, 1, 2, 3})} :
  Do([o |-> "scan", p |-> p, s |-> s, e |-> Scan(m, p, s)]) /\ UNCHANGED <<m, batch, todo, fails>>
\* a scan which deletes what it visits still visits all of it
GSweep == \E p \in {APrefix}, s \in {Pick({0, 1, 2})} :
  LET e == Scan(m, p, s) IN
  /\ Do([o |-> "sweep", p |-> p, s |-> s, e |-> e])
  /\ m' = [k \in DOMAIN m \ {e[i][1] : i \in 1..Len(e)} |-> m[k]]
  /\ UNCHANGED <<batch, todo, fails>>
GBegin == todo = -1 /\ \E c \in {Pick(1..6)}, f \in {Pick(1..4) = 1} :
  todo' = c /\ fails' = f /\ batch' = <<<<>>>> /\ Do([o |-> "begin"]) /\ UNCHANGED m
GBatchOp == todo > 0 /\ todo' = todo - 1 /\ UNCHANGED <<m, fails>> /\
  \E k \in {AKey}, v \in {Pick(Vals)} :
    IF Pick(1..3) = 1
    THEN batch' = <<Append(batch[1], <<"del", k>>)>> /\ Do([o |-> "bdel", k |-> k])
    ELSE batch' = <<Append(batch[1], <<"put", k, v>>)>> /\ Do([o |-> "bput", k |-> k, v |-> v])
GEnd == todo = 0 /\ todo' = -1 /\ batch' = <<>> /\ UNCHANGED fails
        /\ IF fails THEN m' = m /\ Do([o |-> "fail"]) ELSE m' = ApplyAll(m, batch[1]) /\ Do([o |-> "commit"])
GClear == m' = Empty /\ Do([o |-> "clear"]) /\ UNCHANGED <<batch, todo, fails>>
GReopen == todo = -1 /\ Do([o |-> "reopen"]) /\ UNCHANGED <<m, batch, todo, fails>>
GFinish == n >= MaxOps /\ todo = -1
  /\ PrintT("@@" \o ToJson(Append(tr, [o |-> "scan", p |-> <<>>, s |-> 0, e |-> Scan(m, <<>>, 0)])))
  /\ n' = -1 /\ UNCHANGED <<m, batch, tr, todo, fails>>
GStep == LET c == Pick(1..20) IN
  CASE todo = 0 /\ c <= 12 -> GEnd
    [] todo > 0 /\ c <= 12 -> GBatchOp
    [] c <= 5 -> GWrite
    [] c <= 7 -> GDel
    [] c <= 9 -> GGet
    [] c <= 12 -> GScan
    [] c = 13 -> GSweep
    [] c = 14 /\ todo = -1 -> GBegin
    [] c = 15 /\ todo = -1 -> GReopen
    [] c = 16 /\ Pick(1..3) = 1 -> GClear
    [] c \in {17, 18} /\ todo = -1 -> GBegin
    [] OTHER -> GWrite
GNext == IF n < 0 THEN FALSE ELSE IF n >= MaxOps /\ todo = -1 THEN GFinish ELSE GStep
GSpec == GInit /\ [][GNext]_<<gvars, mvars>>
=============================================================================
