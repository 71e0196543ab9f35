----------------------------- MODULE NamesGen -----------------------------
(* Random definitions, documents with namespaces, imports and names, and what the names mean. *)
EXTENDS Names, TLC, Json, FiniteSets
VARIABLE n
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..k) = 1
Spaces == {<<>>, <<"A">>, <<"A", "B">>, <<"B">>, <<"Ce", "A">>}
SKinds == {"class", "iface", "trait", "func", "const"}
RKind(k) == IF k \in {"func", "const"} THEN k ELSE "class"
Pool(k) == CASE k = "class" -> {"N", "M"} [] k = "iface" -> {"I"} [] k = "trait" -> {"T"} [] k = "func" -> {"f", "g"} [] k = "const" -> {"X", "Y"}
All == UNION {{[k |-> k, p |-> s \o <<x>>] : s \in Spaces, x \in Pool(k)} : k \in SKinds}
RECURSIVE Txt(_)
Txt(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "\\" \o Txt(Tail(p))
Text(w) == CASE w.form = "fq" -> "\\" \o Txt(w.parts) [] w.form = "rel" -> "namespace\\" \o Txt(w.parts) [] OTHER -> Txt(w.parts)
\* imports of a block
Keyword(k) == CASE k = "class" -> "" [] k = "func" -> "function " [] k = "const" -> "const "
Targets(defs, k) == {d.p : d \in {d \in defs : RKind(d.k) = k}} \cup (IF k = "class" THEN (Spaces \ {<<>>}) \cup {<<"B", "Q">>} ELSE {<<"A", "Q">>})
NewAlias(p, k) == IF Chance(3) THEN Pick(CASE k = "class" -> {"N", "M", "I", "T", "Q", "R", "B"} [] k = "func" -> {"f", "g", "q", "N"} [] k = "const" -> {"X", "Y", "Z", "N"}) ELSE Last(p)
Add(imports, k, a, p) == [imports EXCEPT ![k] = [x \in DOMAIN @ \cup {a} |-> IF x = a THEN p ELSE @[x]]]
Clause(k, p, pre, a) == [k |-> k, p |-> Txt(Rest(pre, p)), a |-> IF a = Last(p) THEN "" ELSE a]
RECURSIVE Clauses(_, _, _, _, _)
\* a group has a prefix; its clauses have kinds of their own if the group has none
Clauses(i, defs, k, pre, acc) == IF i = 0 THEN acc ELSE
  LET kk == IF pre # <<>> /\ k = "class" THEN Pick({"class", "class", "func", "const"}) ELSE k
      S == {p \in Targets(defs, kk) : Prefix(pre, p) /\ Len(p) > Len(pre)} IN
  IF S = {} THEN acc ELSE
  LET p == Pick(S) a == NewAlias(p, kk) IN
  Clauses(i - 1, defs, k, pre, IF a \in DOMAIN acc.imports[kk] THEN acc ELSE [imports |-> Add(acc.imports, kk, a, p), cl |-> Append(acc.cl, Clause(kk, p, pre, a))])
RECURSIVE Uses(_, _, _)
Uses(i, defs, acc) == IF i = 0 THEN acc ELSE
  LET k == Pick({"class", "class2", "func", "const"}) kk == IF k = "class2" THEN "class" ELSE k
      pre == IF Chance(3) THEN Pick({<<"A">>, <<"A", "B">>, <<"B">>}) ELSE <<>>
      c == Clauses(Pick(1..(IF pre = <<>> THEN 2 ELSE 3)), defs, kk, pre, [imports |-> acc.imports, cl |-> <<>>]) IN
  Uses(i - 1, defs, IF c.cl = <<>> THEN acc ELSE [imports |-> c.imports, uses |-> Append(acc.uses, [k |-> Keyword(kk), pre |-> Txt(pre), cl |-> [j \in DOMAIN c.cl |-> [c.cl[j] EXCEPT !.k = IF kk = "class" THEN Keyword(c.cl[j].k) ELSE ""]]])])
What == {"new", "static", "ext", "inst", "catch", "impl", "trait", "call", "const", "call2", "const2", "iext", "param", "iparam", "ret"}
SKind(what) == CASE what \in {"new", "static", "ext", "inst", "catch", "param"} -> "class" [] what \in {"impl", "iext", "iparam", "ret"} -> "iface" [] what = "trait" -> "trait" [] what \in {"call", "call2"} -> "func" [] OTHER -> "const"
AnyName(k, ns, imports) == LET x == Pick(Pool(k) \cup DOMAIN imports[RKind(k)]) f == Pick(1..6) IN
  CASE f <= 3 -> Un(x) [] f = 4 -> [form |-> "rel", parts |-> <<x>>] [] f = 5 -> [form |-> "fq", parts |-> Pick(Spaces) \o <<x>>]
    [] OTHER -> [form |-> "qu", parts |-> <<Pick({"A", "B", "Q", "N"}), x>>]
\* words can be completed where something is written in its place
Cand(d, ns, imports, defs) == LET k == RKind(d.k) exists == {e.p : e \in {e \in defs : RKind(e.k) = k}} IN
  [k |-> d.k, p |-> Txt(d.p), out |-> {[t |-> Text(o.w), u |-> IF o.u = <<>> THEN "" ELSE "use " \o Keyword(o.k) \o Txt(o.u) \o ";"] : o \in Outcomes(k, d.p, ns, imports, exists)}]
ASite(defs, ns, imports) ==
  LET what == Pick(What) sk == SKind(what) k == RKind(sk)
      exists == {d.p : d \in {d \in defs : RKind(d.k) = k}}
      own == {d \in defs : d.k = sk}
      d == IF own = {} THEN [k |-> sk, p |-> <<"A", "zz">>] ELSE Pick(own)
      W == Ways(k, d.p, ns, imports, exists)
      w == IF sk = "const" /\ Chance(4) THEN Un(Pick({"f", "g", "N", "M"})) ELSE IF Chance(3) \/ W = {} THEN AnyName(sk, ns, imports) ELSE Pick(W)
      p == Resolve(k, w, ns, imports, exists)
  IN [what |-> what, k |-> sk, w |-> Text(w), p |-> Txt(p), hit |-> [k |-> sk, p |-> p] \in defs, open |-> [k |-> sk, p |-> p] \notin defs /\ p \in exists,
      form |-> w.form, low |-> Chance(4) /\ ((Len(w.parts) > 1 /\ w.form = "qu" /\ w.parts[1] \in DOMAIN imports["class"])
                \/ (w.form = "un" /\ k # "const" /\ w.parts[1] \in DOMAIN imports[k])), cand |-> IF Chance(2) THEN <<>> ELSE {Cand(c, ns, imports, defs) : c \in {c \in defs : c.k = sk \/ (sk = "const" /\ c.k \in {"class", "func"})}}]
RECURSIVE Sites(_, _, _, _)
Sites(i, defs, ns, imports) == IF i = 0 THEN <<>> ELSE <<ASite(defs, ns, imports)>> \o Sites(i - 1, defs, ns, imports)
Empty == [k \in {"class", "func", "const"} |-> <<>>]
Block(defs, ns) == LET u == Uses(Pick(0..4), defs, [imports |-> Empty, uses |-> <<>>]) IN
  [ns |-> Txt(ns), uses |-> u.uses, sites |-> Sites(Pick(3..6), defs, ns, u.imports)]
RECURSIVE Blocks(_, _, _)
Blocks(i, defs, acc) == IF i = 0 THEN acc ELSE Blocks(i - 1, defs, Append(acc, Block(defs, Pick(Spaces))))
Doc(d) == LET defs == {x \in All : Pick(1..5) <= 3} b == Blocks(Pick(1..3), defs, <<>>) braced == Chance(2) IN
  [defs |-> defs, blocks |-> b,
   \* namespace X; cannot be ended, only the first block can be outside
   braced |-> braced \/ \E i \in 2..Len(b) : b[i].ns = "", declare |-> Chance(4), eol |-> Pick({"lf", "lf", "crlf"})]
GInit == n = 0
GNext == /\ n = 0 /\ n' = 1
         /\ \E d \in {Doc(0)} : PrintT("@@" \o ToJson([d EXCEPT !.defs = {[k |-> x.k, p |-> Txt(x.p), alt |-> Chance(2)] : x \in d.defs}]))
GSpec == GInit /\ [][GNext]_n
===========================================================================
