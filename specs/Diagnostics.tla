---------------------------- MODULE Diagnostics ----------------------------
(* What is published about a document. A document is a sequence of pieces, a piece a sequence of
   tokens; a token may declare something (which may be deprecated), use something, or be a thing to
   complain about. An index is a function from documents to what each one contributes. *)
EXTENDS Naturals, Sequences, FiniteSets
None == <<>>
\* tokens: [t |-> text, w |-> what] where what is
\*   "" plain, "unused" / "import" / "error" complained about whatever the index says,
\*   "decl" declares r (d: deprecated), "use" uses what r names
Tokens(doc) == {<<i, j>> : i \in DOMAIN doc, j \in 1..30} 
Real(doc) == {p \in Tokens(doc) : p[2] \in DOMAIN doc[p[1]]}
At(doc, p) == doc[p[1]][p[2]]
\* what a document contributes to the index: what it declares, and how a class continues another
Declares(doc) == {[at |-> p, r |-> At(doc, p).r, d |-> At(doc, p).d, sup |-> At(doc, p).sup] : p \in {q \in Real(doc) : At(doc, q).w = "decl"}}
All(idx) == UNION {idx[d] : d \in DOMAIN idx}
\* What is declared once is deprecated or not. Of what is declared several times either may be said
\* unless all agree. A member which the class does not declare is its parent's.
Own(idx, r) == {x \in All(idx) : x.r = r}
Classes(idx, name) == {x \in All(idx) : x.r.k \in {"class", "iface", "trait"} /\ x.r.n = name}
Declared(idx, name) == Cardinality({<<d, x>> \in (DOMAIN idx) \X Classes(idx, name) : x \in idx[d]})
MemberKind == {"method", "smethod", "prop", "sprop", "cconst"}
RECURSIVE May(_, _, _), Must(_, _, _)
May(idx, r, fuel) ==
  \/ \E x \in Own(idx, r) : x.d
  \/ /\ fuel > 0 /\ r.k \in MemberKind /\ (Own(idx, r) = {} \/ Declared(idx, r.n) > 1)
     /\ \E x \in Classes(idx, r.n) : x.sup # "" /\ May(idx, [r EXCEPT !.n = x.sup], fuel - 1)
Must(idx, r, fuel) ==
  IF r.k \notin MemberKind THEN Own(idx, r) # {} /\ \A x \in Own(idx, r) : x.d
  ELSE /\ Declared(idx, r.n) = 1
       /\ IF Own(idx, r) # {} THEN \A x \in Own(idx, r) : x.d
          ELSE fuel > 0 /\ \E x \in Classes(idx, r.n) : x.sup # "" /\ Must(idx, [r EXCEPT !.n = x.sup], fuel - 1)
Immediate(doc) == {p \in Real(doc) : At(doc, p).w \in {"unused", "import", "error"}}
UsesOf(doc, idx, Is(_, _, _)) == {p \in Real(doc) : At(doc, p).w = "use" /\ Is(idx, At(doc, p).r, 3)}
=============================================================================
