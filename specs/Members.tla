------------------------------ MODULE Members ------------------------------
(* Members of types: which declaration an access finds, by inheritance and visibility.
   A world is a sequence of declarations: [n, k, ext, impl, use, mem]; k is "class", "interface"
   or "trait"; ext, impl and use are names of types, which may not exist, exist several times,
   or lead back. A member is [k, n, vis, st]: k "m" method, "p" property, "c" constant. *)
EXTENDS Naturals, Sequences, FiniteSets
Ran(s) == {s[i] : i \in DOMAIN s}
Decls(w, k, names) == {i \in DOMAIN w : w[i].k = k /\ w[i].n \in names}
Refs(w, ds, f(_)) == UNION {Ran(f(w[i])) : i \in ds}
ExtOf(d) == d.ext
ImplOf(d) == d.impl
UseOf(d) == d.use
\* the parents of classes: sequence of sets of names, nearest first
RECURSIVE Chain(_, _, _)
Chain(w, names, seen) ==
  LET now == {n \in names \ seen : Decls(w, "class", {n}) # {}} IN
  IF now = {} THEN <<>> ELSE <<now>> \o Chain(w, Refs(w, Decls(w, "class", now), ExtOf), seen \cup now)
ClassesOf(w, n) == LET c == Chain(w, {n}, {}) IN UNION Ran(c)
\* class a is class b or extends it, at any depth
Derived(w, a, b) == b \in ClassesOf(w, a)
Related(w, a, b) == Derived(w, a, b) \/ Derived(w, b, a)
Ambiguous(w, n) == Cardinality(Decls(w, "trait", {n})) > 1 \/ \E a \in ClassesOf(w, n) : Cardinality(Decls(w, "class", {a})) > 1
\* a place: a member's declaration, <<i, j>>
Has(w, i, mk, mn) == {<<i, j>> : j \in {j \in DOMAIN w[i].mem : w[i].mem[j].k = mk /\ w[i].mem[j].n = mn}}
At(w, p) == w[p[1]].mem[p[2]]
In(w, ds, mk, mn) == UNION {Has(w, i, mk, mn) : i \in ds}
\* the interfaces from which a member is inherited: those reached without passing one that has it
RECURSIVE Reach(_, _, _, _, _)
Reach(w, names, seen, mk, mn) ==
  LET now == Decls(w, "interface", names \ seen)
      hit == In(w, now, mk, mn)
      on == {i \in now : Has(w, i, mk, mn) = {}}
  IN IF now = {} THEN {} ELSE hit \cup Reach(w, Refs(w, on, ExtOf), seen \cup names, mk, mn)
RECURSIVE AllInterfaces(_, _, _)
AllInterfaces(w, names, seen) ==
  LET now == Decls(w, "interface", names \ seen) IN
  IF now = {} THEN {} ELSE now \cup AllInterfaces(w, Refs(w, now, ExtOf), seen \cup names)
\* in a trait, $this has what the trait has
IsTrait(w, n) == Decls(w, "trait", {n}) # {}
\* the levels at which a type's member can be declared, each a set of places, nearest first
RECURSIVE ChainLevels(_, _, _, _)
ChainLevels(w, c, mk, mn) ==
  IF c = <<>> THEN <<>> ELSE
  LET ds == Decls(w, "class", Head(c)) IN
  <<In(w, ds, mk, mn), In(w, Decls(w, "trait", Refs(w, ds, UseOf)), mk, mn)>> \o ChainLevels(w, Tail(c), mk, mn)
Implemented(w, n) == Refs(w, Decls(w, "class", ClassesOf(w, n)), ImplOf)
Levels(w, n, mk, mn) == IF IsTrait(w, n) THEN <<In(w, Decls(w, "trait", {n}), mk, mn)>> ELSE IF Decls(w, "class", {n}) # {}
  THEN Append(ChainLevels(w, Chain(w, {n}, {}), mk, mn), Reach(w, Implemented(w, n), {}, mk, mn))
  ELSE <<Reach(w, {n}, {}, mk, mn)>>
\* everything of the name, however far and hidden
All(w, n, mk, mn) == IF IsTrait(w, n) THEN In(w, Decls(w, "trait", {n}), mk, mn) ELSE IF Decls(w, "class", {n}) # {}
  THEN UNION Ran(ChainLevels(w, Chain(w, {n}, {}), mk, mn)) \cup In(w, AllInterfaces(w, Implemented(w, n), {}), mk, mn)
  ELSE In(w, AllInterfaces(w, {n}, {}), mk, mn)

\* ---- visibility: in the class cx ("" for none), of a member of the type n
\* a trait's members are those of the classes using it
Owners(w, n, p) == IF w[p[1]].k # "trait" \/ w[p[1]].n = n THEN {w[p[1]].n}
                   ELSE {c \in ClassesOf(w, n) : w[p[1]].n \in Refs(w, Decls(w, "class", {c}), UseOf)}
Visible(w, cx, n, p) == LET v == At(w, p).vis IN
  \/ v = "public"
  \/ cx # "" /\ \E o \in Owners(w, n, p) : o = cx \/ (v = "protected" /\ Related(w, cx, o))
\* PHP looks at where a protected method has been declared first; this is left open
\* what is hidden from a trait depends on the classes using it
Doubtful(w, cx, n, p) == /\ cx # "" /\ ~Visible(w, cx, n, p)
                         /\ (IsTrait(w, cx) \/ (At(w, p).vis = "protected" /\ \E o \in Owners(w, n, p) : ClassesOf(w, o) \cap ClassesOf(w, cx) # {}))

\* ---- accesses: [cx, form, t]; form: "->", "::" (of a name or an object), "self" (or static), "parent".
\* `fits` says whether the rule of the form takes the member: "yes", "no", or "any" where PHP
\* refuses it with an error or notice, but finds it
Fits(form, m) ==
  CASE form = "->" -> IF m.k = "c" THEN "no" ELSE IF m.k = "p" /\ m.st THEN "any" ELSE "yes"
    [] form = "::" -> IF m.k = "c" \/ m.st THEN "yes" ELSE "no"
    [] form \in {"self", "parent"} -> IF m.k = "p" /\ ~m.st THEN "any" ELSE "yes"
Takes(w, a, p) == LET m == At(w, p) IN
  IF a.form = "parent" /\ ((w[p[1]].n = a.cx /\ w[p[1]].k # "interface") \/ m.vis = "private") THEN "no"
  ELSE IF Doubtful(w, a.cx, a.t, p) THEN (IF Fits(a.form, m) = "no" THEN "no" ELSE "any")
  ELSE IF ~Visible(w, a.cx, a.t, p) THEN "no" ELSE Fits(a.form, m)
\* the answer: ok, the places one of which is found; must, whether something is found
RECURSIVE First(_, _, _)
First(w, a, ls) ==
  IF ls = <<>> THEN [ok |-> {}, must |-> FALSE] ELSE
  LET here == Head(ls)
      yes == {p \in here : Takes(w, a, p) = "yes"}
      any == {p \in here : Takes(w, a, p) # "no"}
      rest == First(w, a, Tail(ls))
  IN IF here = {} THEN rest
     ELSE IF here = yes THEN [ok |-> here, must |-> TRUE]
     \* what PHP would not have compiled, or would refuse: a nearer one that does not fit
     ELSE [ok |-> any \cup rest.ok, must |-> FALSE]
\* the class the access is written in finds its private method or property also where a class
\* extending it has another
Own(w, a, mk, mn) == {p \in All(w, a.t, mk, mn) : w[p[1]].n = a.cx /\ w[p[1]].k = "class" /\ At(w, p).vis = "private"}
Answer(w, a, mk, mn) ==
  LET x == First(w, a, Levels(w, a.t, mk, mn))
      every == All(w, a.t, mk, mn)
      all == {p \in every : Takes(w, a, p) # "no"}
      \* of a parent which is no class, anything
      misused == a.form = "parent" /\ Decls(w, "class", {a.t}) = {}
  IN IF misused THEN [ok |-> every, must |-> FALSE]
     ELSE IF Ambiguous(w, a.t) \/ (Decls(w, "class", {a.t}) # {} /\ Decls(w, "interface", {a.t}) # {})
        \* types declared more than once: one of those there are
        THEN [ok |-> all, must |-> all # {} /\ \A p \in every : Takes(w, a, p) = "yes"]
     ELSE IF x.must THEN [ok |-> x.ok \cup {p \in Own(w, a, mk, mn) : p \in all}, must |-> TRUE]
     ELSE [ok |-> all, must |-> FALSE]
=============================================================================
