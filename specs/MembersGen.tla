---------------------------- MODULE MembersGen ----------------------------
(* Random worlds of types, accesses to them, and what these find. *)
EXTENDS Members, TLC, Json
CONSTANT Worlds
VARIABLE n
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..k) = 1
Names == {"A", "B", "C", "D", "N\\E"}
MNames(k) == CASE k = "m" -> {"ma", "mb"} [] k = "p" -> {"pa", "pb"} [] k = "c" -> {"CA", "CB"}
SomeNames(S, k) == IF Chance(k) THEN <<>> ELSE IF Chance(4) THEN LET x == Pick(S) y == Pick(S) IN IF x = y THEN <<x>> ELSE <<x, y>> ELSE <<Pick(S)>>
\* spelling: methods may be written otherwise than they are called
AMember(k, kind) == [k |-> k, n |-> Pick(MNames(k)), vis |-> IF kind = "interface" THEN "public" ELSE (IF Chance(4) THEN "private" ELSE IF Chance(3) THEN "protected" ELSE "public"),
                     st |-> k # "c" /\ Chance(3), up |-> Chance(4)]
RECURSIVE AMembers(_, _, _)
AMembers(i, kind, ms) == IF i = 0 THEN ms ELSE
  LET m == AMember(Pick(IF kind = "interface" THEN {"m", "c"} ELSE IF kind = "trait" THEN {"m", "p"} ELSE {"m", "p", "c"}), kind)
  IN AMembers(i - 1, kind, IF \E x \in Ran(ms) : x.k = m.k /\ x.n = m.n THEN ms ELSE Append(ms, m))
\* which names are classes, interfaces and traits is drawn first, so that references find something
ADecl(nm, kinds) ==
  LET k == kinds[nm]
      of(x, i) == LET S == {y \in Names : kinds[y] = x} IN IF Chance(12) \/ S = {} THEN SomeNames(Names, i) ELSE SomeNames(S, i)
  IN [n |-> nm, k |-> k,
      ext |-> IF k = "class" THEN LET e == of("class", 4) IN IF e = <<>> THEN e ELSE <<e[1]>> ELSE IF k = "interface" THEN of("interface", 2) ELSE <<>>,
      impl |-> IF k = "class" THEN of("interface", 2) ELSE <<>>, use |-> IF k = "class" THEN of("trait", 3) ELSE <<>>,
      mem |-> AMembers(Pick(1..4), k, <<>>), file |-> Pick(1..3), low |-> Chance(6)]
RECURSIVE World(_, _)
World(left, kinds) == IF left = {} THEN <<>> ELSE LET nm == Pick(left) IN
  (IF Chance(9) THEN <<>> ELSE IF Chance(14) THEN <<ADecl(nm, kinds), ADecl(nm, kinds)>> ELSE <<ADecl(nm, kinds)>>) \o World(left \ {nm}, kinds)
\* two declarations of a name are in two files
Apart(w) == \A i, j \in DOMAIN w : i # j /\ w[i].n = w[j].n => w[i].file # w[j].file
Classes(w) == {i \in DOMAIN w : w[i].k \in {"class", "trait"}}
Typed(w) == {w[i].n : i \in {i \in DOMAIN w : w[i].k # "trait"}}
\* cx: the class the access is written in, as its declaration; 0: outside of classes.
\* anon: written in a class without a name, in a method of that one
Forms(w, c, anon) == {"var", "param", "name", "inst"} \cup (IF c = 0 \/ anon THEN {} ELSE {"this", "self", "static"})
                     \cup (IF c = 0 \/ anon THEN {} ELSE IF w[c].k = "class" THEN {"parent"} ELSE {})
FormOf(f) == CASE f \in {"var", "param", "this"} -> "->" [] f \in {"name", "inst"} -> "::" [] f \in {"self", "static"} -> "self" [] f = "parent" -> "parent"
AnAccess(w) ==
  LET c == IF Classes(w) = {} \/ Chance(4) THEN 0 ELSE Pick(Classes(w))
      anon == c # 0 /\ Chance(6)
      f0 == Pick(Forms(w, c, anon))
      f == IF f0 = "parent" /\ w[c].ext = <<>> THEN "this" ELSE f0
      t == CASE f \in {"this", "self", "static"} -> w[c].n [] f = "parent" -> w[c].ext[1]
             [] OTHER -> IF c # 0 /\ w[IF c = 0 THEN 1 ELSE c].k = "class" /\ Chance(2) THEN Pick(ClassesOf(w, w[c].n) \cup {w[c].n}) ELSE IF Typed(w) = {} THEN "A" ELSE Pick(Typed(w))
      a == [cx |-> IF c = 0 \/ anon THEN "" ELSE w[c].n, form |-> FormOf(f), t |-> t]
  IN [c |-> c, f |-> f, t |-> t, closure |-> Chance(3), anon |-> anon,
      ans |-> {[k |-> k, n |-> x, a |-> Answer(w, a, k, x)] : k \in {"m"}, x \in MNames("m")}
              \cup {[k |-> k, n |-> x, a |-> Answer(w, a, k, x)] : k \in {"p"}, x \in MNames("p")}
              \cup (IF FormOf(f) = "->" THEN {} ELSE {[k |-> k, n |-> x, a |-> Answer(w, a, k, x)] : k \in {"c"}, x \in MNames("c")})]
RECURSIVE Accesses(_, _)
Accesses(w, k) == IF k = 0 THEN <<>> ELSE <<AnAccess(w)>> \o Accesses(w, k - 1)
RECURSIVE AWorld(_)
AWorld(k) == LET w == World(Names, TLCEval([nm \in Names |-> LET kk == Pick(1..5) IN IF kk <= 3 THEN "class" ELSE IF kk = 4 THEN "interface" ELSE "trait"])) IN
             IF Apart(w) /\ w # <<>> THEN w ELSE AWorld(k + 1)
GInit == n = 0
GNext == \/ n = 0 /\ n' = 1 /\ \E w \in {AWorld(0)} : PrintT("@@" \o ToJson([world |-> w, acc |-> Accesses(w, 10)]))
GSpec == GInit /\ [][GNext]_n
=============================================================================
