---------------------------- MODULE MembersMC ----------------------------
(* Every small world of types: collecting the types a type has its members from, by a list of
   names to be visited, ends, whatever the types refer to, and the first member on that list
   which is accessible is one that Members!Answer says. *)
EXTENDS Members, TLC
CONSTANTS Types, Static
VARIABLES w, t, todo, seen, intfs, out, rel, done
vars == <<w, t, todo, seen, intfs, out, rel, done>>
None == "-"
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Mems(k) == {<<>>} \cup {<<[k |-> "m", n |-> "ma", vis |-> v, st |-> s]>> : v \in IF k = "interface" THEN {"public"} ELSE {"public", "protected", "private"}, s \in Static}
ThreeTypes == <<"A", "B", "C">>
FourTypes == <<"A", "B", "C", "D">>
Names == Ran(Types)
OfKind(kinds, k) == {nm \in Names : kinds[nm] = k}
DeclsOf(nm, kinds) ==
  LET k == kinds[nm] IN
  {[n |-> nm, k |-> k, ext |-> e, impl |-> i, use |-> u, mem |-> m] :
     e \in IF k = "trait" THEN {<<>>} ELSE Opt(OfKind(kinds, k)), i \in IF k = "class" THEN Opt(OfKind(kinds, "interface")) ELSE {<<>>},
     u \in IF k = "class" THEN Opt(OfKind(kinds, "trait")) ELSE {<<>>}, m \in Mems(k)}
Rank == [class |-> 1, interface |-> 2, trait |-> 3]
\* up to renaming, classes come first, then interfaces, then traits
Sorted(kinds) == \A i \in 1..(Len(Types) - 1) : Rank[kinds[Types[i]]] <= Rank[kinds[Types[i + 1]]]
RECURSIVE Worlds(_, _)
Worlds(kinds, i) == IF i > Len(Types) THEN {<<>>} ELSE {<<d>> \o r : d \in DeclsOf(Types[i], kinds), r \in Worlds(kinds, i + 1)}
MInit == /\ \E kinds \in {kk \in [Names -> {"class", "interface", "trait"}] : Sorted(kk)} : w \in Worlds(kinds, 1)
         /\ t \in {w[i].n : i \in {i \in DOMAIN w : w[i].k # "trait"}}
         /\ todo = (IF Decls(w, "class", {t}) # {} THEN <<t>> ELSE <<>>)
         /\ intfs = (IF Decls(w, "class", {t}) # {} THEN <<>> ELSE <<t>>)
         /\ seen = {} /\ out = <<>> /\ rel = {} /\ done = FALSE
Decl(n) == w[CHOOSE i \in DOMAIN w : w[i].n = n]
Add(o, n) == IF n \in Ran(o) THEN o ELSE Append(o, n)
\* classes first
VisitClass ==
  /\ todo # <<>> /\ LET n == Head(todo) d == Decl(n) IN
     IF n \in seen \/ d.k # "class" THEN todo' = Tail(todo) /\ UNCHANGED <<seen, intfs, out, rel>>
     ELSE /\ seen' = seen \cup {n}
          /\ todo' = Tail(todo) \o d.ext
          /\ intfs' = intfs \o d.impl
          /\ out' = IF d.use = <<>> THEN Add(out, n) ELSE Add(Add(out, n), d.use[1])
          /\ rel' = rel \cup {<<x, n>> : x \in Ran(d.use)}
  /\ UNCHANGED <<w, t, done>>
VisitInterface ==
  /\ todo = <<>> /\ intfs # <<>> /\ LET n == Head(intfs) d == Decl(n) IN
     IF n \in seen THEN intfs' = Tail(intfs) /\ UNCHANGED <<seen, out>>
     ELSE /\ seen' = seen \cup {n} /\ intfs' = Tail(intfs) \o d.ext /\ out' = Add(out, n)
  /\ UNCHANGED <<w, t, todo, rel, done>>
Finish == /\ todo = <<>> /\ intfs = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<w, t, todo, seen, intfs, out, rel>>
MNext == VisitClass \/ VisitInterface \/ Finish
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)
Terminates == <>done

\* the answer, by the list
Accessible(cx, n) == LET m == Decl(n).mem[1] owners == {x[2] : x \in {x \in rel : x[1] = n}} IN
  \/ m.vis = "public" \/ n = cx
  \/ cx # "" /\ \E o \in IF owners = {} THEN {n} ELSE owners : o = cx \/ (m.vis = "protected" /\ Related(w, cx, o))
Passes(a, n) == LET d == Decl(n) IN
  /\ d.mem # <<>>
  /\ CASE a.form = "->" -> Accessible(a.cx, n)
       [] a.form = "::" -> d.mem[1].st /\ Accessible(a.cx, n)
       [] a.form = "self" -> Accessible(a.cx, n)
       [] a.form = "parent" -> n # a.cx /\ d.mem[1].vis # "private"
Hits(a) == SelectSeq(out, LAMBDA n : Passes(a, n))
Place(n) == <<CHOOSE i \in DOMAIN w : w[i].n = n, 1>>
ClassNames == {w[i].n : i \in {i \in DOMAIN w : w[i].k = "class"}}
Accesses == {[cx |-> cx, form |-> f, t |-> t] : cx \in ClassNames \cup {""}, f \in {"->", "::"}}
            \cup {[cx |-> t, form |-> "self", t |-> t] : x \in {t} \cap ClassNames}
            \cup {[cx |-> cx, form |-> "parent", t |-> t] : cx \in {c \in ClassNames : t \in ClassNames /\ Decl(c).ext = <<t>>}}
Agrees == done => \A a \in Accesses : LET h == Hits(a) x == Answer(w, a, "m", "ma") IN
            /\ h # <<>> => Place(h[1]) \in x.ok
            /\ x.must => h # <<>>
Once == \A i, j \in DOMAIN out : out[i] = out[j] => i = j
=============================================================================
