------------------------------- MODULE Names -------------------------------
(* What a name in a document means. A fully qualified name is a sequence of parts; a written name
   has a form: "un"(qualified, one part), "qu"(alified), "fq" (\A\N) or "rel" (namespace\N).
   imports: for "class", "func" and "const" a function from aliases to fully qualified names.
   Interfaces and traits are of the kind "class".                                            *)
EXTENDS Naturals, Sequences
None == <<"-">>
Resolve(kind, w, ns, imports, exists) ==
  LET p == w.parts IN
  CASE w.form = "fq" -> p
    [] w.form = "rel" -> ns \o p
    [] Len(p) > 1 -> IF p[1] \in DOMAIN imports["class"] THEN imports["class"][p[1]] \o Tail(p) ELSE ns \o p
    [] p[1] \in DOMAIN imports[kind] -> imports[kind][p[1]]
    [] kind = "class" -> ns \o p
    [] OTHER -> IF ns \o p \in exists THEN ns \o p ELSE p
Last(p) == p[Len(p)]
Un(x) == [form |-> "un", parts |-> <<x>>]
\* how a symbol is written by a completion of an unqualified word, and the import which is added, if any
Aliases(kind, p, imports) == {x \in DOMAIN imports[kind] : imports[kind][x] = p}
Written(kind, p, ns, imports, exists) ==
  CASE Resolve(kind, Un(Last(p)), ns, imports, exists) = p -> [w |-> Un(Last(p)), use |-> FALSE]
    [] Aliases(kind, p, imports) # {} -> [w |-> Un(CHOOSE x \in Aliases(kind, p, imports) : TRUE), use |-> FALSE]
    [] Last(p) \notin DOMAIN imports[kind] -> [w |-> Un(Last(p)), use |-> TRUE]
    [] OTHER -> [w |-> [form |-> "fq", parts |-> p], use |-> FALSE]
Import(kind, p, imports) == [imports EXCEPT ![kind] = [x \in DOMAIN @ \cup {Last(p)} |-> IF x = Last(p) THEN p ELSE @[x]]]
Prefix(q, p) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
Rest(q, p) == SubSeq(p, Len(q) + 1, Len(p))
Rel(parts) == [form |-> IF Len(parts) = 1 THEN "un" ELSE "qu", parts |-> parts]
\* all ways to write the symbol p where nothing is imported for it
Ways(kind, p, ns, imports, exists) ==
  {w \in {[form |-> "fq", parts |-> p], Rel(p), Un(Last(p))}
         \cup {Un(x) : x \in DOMAIN imports[kind]}
         \cup {Rel(<<a>> \o Rest(imports["class"][a], p)) : a \in {a \in DOMAIN imports["class"] : Prefix(imports["class"][a], p)}}
         \cup (IF Prefix(ns, p) /\ Len(p) > Len(ns) THEN {[form |-> "rel", parts |-> Rest(ns, p)], Rel(Rest(ns, p))} ELSE {}) :
     Resolve(kind, w, ns, imports, exists) = p}
\* what a completion may do: write the symbol so, with an import of the kind k of u, <<>> being none
Outcomes(kind, p, ns, imports, exists) ==
  {[w |-> w, k |-> kind, u |-> <<>>] : w \in Ways(kind, p, ns, imports, exists)}
  \cup {[w |-> Rel(SubSeq(p, i, Len(p))), k |-> IF i = Len(p) THEN kind ELSE "class", u |-> SubSeq(p, 1, i)] :
        i \in {i \in 1..Len(p) : p[i] \notin DOMAIN imports[IF i = Len(p) THEN kind ELSE "class"]}}
===========================================================================
