------------------------------ MODULE NamesMC ------------------------------
(* Completions one after another in a document with any imports: each is written so that it means
   the symbol which was chosen, and goes on meaning it while more are completed.              *)
EXTENDS Names, FiniteSets
CONSTANTS Parts, Steps
VARIABLES ns, imports, exists, done
vars == <<ns, imports, exists, done>>
Symbols == {<<x>> : x \in Parts} \cup {<<x, y>> : x \in Parts, y \in Parts}
Spaces == {<<>>, <<CHOOSE x \in Parts : TRUE>>}
Kinds == {"class", "func"}
Tables == UNION {[D -> Symbols] : D \in {E \in SUBSET Parts : Cardinality(E) <= 1}}
\* const is like func
Init == /\ ns \in Spaces /\ exists \in {E \in SUBSET Symbols : Cardinality(E) <= 2} /\ done = {}
        /\ imports \in [{"class", "func"} -> Tables]
Complete(k, p) ==
  /\ k = "func" => p \in exists
  /\ LET a == Written(k, p, ns, imports, exists) IN
     /\ imports' = IF a.use THEN Import(k, p, imports) ELSE imports
     /\ done' = done \cup {[k |-> k, p |-> p, w |-> a.w, own |-> a.use]}
  /\ UNCHANGED <<ns, exists>>
Next == Cardinality(done) < Steps /\ \E k \in Kinds, p \in Symbols : Complete(k, p)
Spec == Init /\ [][Next]_vars
Means(d) == Resolve(d.k, d.w, ns, imports, exists) = d.p
\* an import can capture a name that was written for what the namespace has itself, nothing else
Captured(d) == /\ d.w.form = "un" /\ ~d.own /\ d.w.parts[1] \in DOMAIN imports[d.k]
               /\ \E e \in done : e.k = d.k /\ e.own /\ e.w = d.w
Meant == \A d \in done : Means(d) \/ Captured(d)
Fresh == [][\A d \in done' \ done : Resolve(d.k, d.w, ns, imports', exists) = d.p]_vars
Allowed == \A k \in Kinds, p \in Symbols : (k = "func" => p \in exists) =>
  LET a == Written(k, p, ns, imports, exists) IN [w |-> a.w, k |-> k, u |-> IF a.use THEN p ELSE <<>>] \in Outcomes(k, p, ns, imports, exists)
\* whatever is allowed means the symbol
Sound == \A k \in Kinds, p \in Symbols : (k = "func" => p \in exists) => \A o \in Outcomes(k, p, ns, imports, exists) :
  Resolve(k, o.w, ns, IF o.u = <<>> THEN imports ELSE Import(o.k, o.u, imports), exists) = p
===========================================================================
