----------------------------- MODULE PlacesGen -----------------------------
(* Documents in which every construct is marked, and edits from one to the next. Tokens are
     [w |-> "", t]                 text in which nothing is
     [w |-> "b", k, n, id] / "e"   a declaration of kind k and name n begins / ends
     [w |-> "n", t, of]            the name in a declaration
     [w |-> "u", t, k, n, ns, o]   a use: of the n of kind k in the namespace ns, or of its class o
   What a use refers to, and the outline, are computed from the tokens. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxSteps
VARIABLES n, doc, done
vars == <<n, doc, done>>
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..k) = 1
P(t) == <<[w |-> "", t |-> t]>>
X(t) == <<[w |-> "x", t |-> t]>>   \* nothing is found in it
B(k, nm, id) == <<[w |-> "b", k |-> k, n |-> nm, id |-> id]>>
E == <<[w |-> "e"]>>
N(t, id) == <<[w |-> "n", t |-> t, id |-> id]>>
U(t, k, nm, o) == <<[w |-> "u", t |-> t, k |-> k, n |-> nm, o |-> o]>>
S(i) == ToString(i)
Comment == X(Pick({"/* @a@o */", "/* text */", "// @o text\n", "# @a\n", "/* two\n@o lines */", "// \n"}))
Gap == IF Chance(3) THEN Comment ELSE P(Pick({"", "", " ", "\n", "\t", "\n\n", "  "}))
Sp == IF Chance(6) THEN P(" ") \o X("/* @o */") \o P(" ") ELSE P(Pick({" ", " ", " ", "\n", "  ", "\t"}))
Value == P(Pick({"1", "'@a'", "\"@o\"", "1 + 2", "[1, '@o' => 2]", "'two\nlines'", "'a' . '@o@o'"}))
Expr == P(Pick({"1", "'@a@o'", "\"@o\\n\"", "<<<EOT\n@o text\nEOT\n", "$x", "[1]", "'a\n@a'", "$x[1]", "-1"}))
\* names: a class is C<id>, and so on, where id is the number of its piece; K is a piece's number somewhere in the document
K == IF Chance(6) THEN Pick(11..14) ELSE Pick(1..4)
Static(k) == LET i == S(k) IN
  Pick({U("@uC" \o i, "class", "@uC" \o i, "") \o P("::") \o U("sm", "method", "sm", "@uC" \o i) \o P("()"),
        U("@uC" \o i, "class", "@uC" \o i, "") \o P("::") \o U("$@usp", "prop", "$@usp", "@uC" \o i),
        U("@uC" \o i, "class", "@uC" \o i, "") \o P("::") \o U("CA", "cconst", "CA", "@uC" \o i),
        U("@uC" \o i, "class", "@uC" \o i, "") \o P("::") \o U("CB", "cconst", "CB", "@uC" \o i),
        U("@uT" \o i, "trait", "@uT" \o i, "") \o P("::") \o U("sm", "method", "sm", "@uT" \o i) \o P("()"),
        U("@uI" \o i, "iface", "@uI" \o i, "") \o P("::") \o U("CA", "cconst", "CA", "@uI" \o i)})
Use == LET i == S(K) IN
  Pick({U("@uf" \o i, "func", "@uf" \o i, "") \o P("()"), U("@uf" \o i, "func", "@uf" \o i, "") \o P(" ( 1 )"), P("new ") \o U("@uC" \o i, "class", "@uC" \o i, ""),
        P("new") \o Sp \o U("@uC" \o i, "class", "@uC" \o i, "") \o P("(1)"), U("@uKA" \o i, "const", "@uKA" \o i, ""), U("@uKB" \o i, "const", "@uKB" \o i, ""),
        U("@uD" \o i, "define", "@uD" \o i, ""), P("$x instanceof ") \o U("@uC" \o i, "class", "@uC" \o i, ""),
        P("(new ") \o U("@uC" \o i, "class", "@uC" \o i, "") \o P(")") \o Gap \o P("->") \o U("@um", "method", "@um", "@uC" \o i) \o P("()"),
        P("(new ") \o U("@uC" \o i, "class", "@uC" \o i, "") \o P(")->") \o U("@up", "prop", "$@up", "@uC" \o i), Static(K), Static(K)})
RECURSIVE Exprs(_)
Exprs(i) == IF i = 0 THEN Use ELSE (IF Chance(3) THEN Expr ELSE Use) \o Gap \o P(Pick({" . ", " + ", ", "})) \o Exprs(i - 1)
Line == CASE Chance(3) -> P("echo ") \o Exprs(Pick(0..2)) \o P(";") [] Chance(3) -> P("$y = [") \o Exprs(Pick(0..2)) \o P("];") [] Chance(3) -> P("if (") \o Use \o P(") {}") [] OTHER -> Use \o P(";")
Type(k) == U("@uC" \o S(k), "class", "@uC" \o S(k), "")
Params == CASE Chance(2) -> P("") [] Chance(2) -> P("$x = 1") [] Chance(2) -> Type(K) \o P(" $x, ...$z") [] OTHER -> P("?") \o Type(K) \o P(" $x = null, array $q = []")
Ret == CASE Chance(4) -> P(": ") \o Type(K) [] Chance(4) -> P("") \o Gap \o P(": ?") \o Type(K) [] OTHER -> P("")
DocC == IF Chance(3) THEN P(Pick({"/** @a@o */ ", "/**\n * text @o\n */\n", "/** @return int */", "// @a\n"})) ELSE P("")
RECURSIVE Func(_, _), Lines(_), Item(_, _), MembersOf(_, _, _, _)
Lines(i) == IF i = 0 THEN P("") ELSE Gap \o Line \o Gap \o Lines(i - 1)
Func(id, depth) == DocC \o B("func", "@uf" \o S(id), id) \o P("function") \o Sp \o P(Pick({"", "", "&"})) \o N("@uf" \o S(id), id) \o Gap \o P("(") \o Params \o P(")") \o Ret \o Gap
                   \o P("{") \o Lines(Pick(0..2)) \o (IF depth > 0 /\ Chance(4) THEN Item(id + 10, depth - 1) ELSE P("")) \o Gap \o P("}") \o E
Method(id, mi, nm, mods, abs) == DocC \o B("method", nm, id + 1000 * mi) \o P(mods \o "function ") \o N(nm, id + 1000 * mi) \o P("(") \o Params \o P(")") \o Ret
                        \o (IF abs THEN P(";") ELSE Gap \o P("{") \o Lines(Pick(0..1)) \o (IF id < 30 /\ Chance(6) THEN Func(id + 10 * mi, 0) ELSE P("")) \o P("}")) \o E
Prop(id, mi, nm, mods, many) == DocC \o P(mods) \o B("prop", nm, id + 1000 * mi) \o N(nm, id + 1000 * mi) \o (IF Chance(2) THEN P(" = ") \o Value ELSE P("")) \o E
                     \o (IF many THEN P(",") \o Sp \o B("prop", "$o" \o S(mi), id + 1000 * mi + 500) \o N("$o" \o S(mi), id + 1000 * mi + 500) \o E ELSE P("")) \o P(";")
CConst(id, mi, nm, mods, many) == DocC \o P(mods \o "const ") \o B("cconst", nm, id + 1000 * mi) \o N(nm, id + 1000 * mi) \o P(" = ") \o Value \o E
                     \o (IF many THEN P(",") \o Sp \o B("cconst", "CZ" \o S(mi), id + 1000 * mi + 500) \o N("CZ" \o S(mi), id + 1000 * mi + 500) \o P("=") \o Value \o E ELSE P("")) \o P(";")
Vis == Pick({"public ", "public ", ""})
MembersOf(k, id, mi, which) ==
  IF which = <<>> THEN P("") ELSE
  (IF Chance(3) THEN P("") ELSE Gap \o
    CASE Head(which) = "m" -> Method(id, mi, "@um", Pick({"public ", "", "final public "}), k = "iface")
      [] Head(which) = "sm" -> Method(id, mi, "sm", Pick({"public static ", "static "}), k = "iface")
      [] Head(which) = "am" -> Method(id, mi, "am" , IF k = "iface" THEN "public " ELSE "abstract public ", TRUE)
      [] Head(which) = "p" -> Prop(id, mi, "$@up", Pick({"public ", "var ", "public int "}), Chance(3))
      [] Head(which) = "sp" -> Prop(id, mi, "$@usp", "public static ", Chance(3))
      [] Head(which) = "CA" -> CConst(id, mi, "CA", Pick({"", "public "}), Chance(3))
      [] OTHER -> CConst(id, mi, "CB", Pick({"", "public "}), Chance(3)))
  \o Gap \o MembersOf(k, id, mi + 1, Tail(which))
Order(which) == LET i == Pick(0..Len(which)) IN SubSeq(which, i + 1, Len(which)) \o SubSeq(which, 1, i)
Class(id) == DocC \o B("class", "@uC" \o S(id), id) \o P(Pick({"", "", "abstract ", "final "})) \o P("class") \o Sp \o N("@uC" \o S(id), id)
             \o (IF Chance(4) THEN P(" implements ") \o LET i == S(K) IN U("@uI" \o i, "iface", "@uI" \o i, "") ELSE P("")) \o Gap \o P("{")
             \o MembersOf("class", id, 1, Order(<<"m", "sm", "am", "p", "sp", "CA", "CB">>)) \o P("}") \o E
Iface(id) == DocC \o B("iface", "@uI" \o S(id), id) \o P("interface") \o Sp \o N("@uI" \o S(id), id) \o Gap \o P("{") \o MembersOf("iface", id, 1, Order(<<"m", "am", "CA">>)) \o P("}") \o E
Trait(id) == DocC \o B("trait", "@uT" \o S(id), id) \o P("trait ") \o N("@uT" \o S(id), id) \o Gap \o P("{") \o MembersOf("trait", id, 1, Order(<<"m", "sm", "p", "sp">>)) \o P("}") \o E
Const(id) == DocC \o P("const ") \o B("const", "@uKA" \o S(id), id) \o P("@uKA" \o S(id) \o " = ") \o Value \o E
             \o (IF Chance(2) THEN P(", ") \o Gap \o B("const", "@uKB" \o S(id), id + 500) \o P("@uKB" \o S(id) \o "=") \o Value \o E ELSE P("")) \o P(";")
Define(id) == B("define", "@uD" \o S(id), id) \o P(Pick({"define('@uD" \o S(id) \o "', ", "define(\"@uD" \o S(id) \o "\" , "})) \o Value \o P(")") \o E \o P(";")
\* what is declared in a block of statements
Block(id, depth) == LET w == Pick({<<"if ($x) {", "}">>, <<"while (1) {", "}">>, <<"{", "}">>, <<"try {", "} finally {}">>, <<"$g = function () {", "};">>,
                                   <<"foreach ($x as $y) {", "}">>, <<"if (1) {} else {", "}">>, <<"switch ($x) { case 1: ", "}">>})
                    IN P(w[1]) \o Gap \o Item(id, depth - 1) \o Gap \o P(w[2])
Item(id, depth) == CASE Chance(4) -> Func(id, depth) [] Chance(3) -> Class(id) [] Chance(5) -> Iface(id) [] Chance(6) -> Trait(id) [] Chance(5) /\ depth = 2 -> Const(id) [] Chance(4) -> Define(id) [] OTHER -> Func(id, depth)
Html == P("?>") \o P(Pick({"\n<b>@a@o</b>\n", "@o\n", " \n"})) \o P(Pick({"<?php ", "<?php\n"}))
Echo == P("?>@a <?= ") \o Use \o P(" ?>\n@o\n<?php ")
Piece(id) == Gap \o (CASE Chance(2) -> Item(id, 2) [] Chance(4) -> Block(id, 2) [] Chance(6) -> Html [] Chance(8) -> Echo [] OTHER -> Lines(Pick(1..2))) \o Gap
Ids == 1..4
\* a document: sections of pieces
Used(secs) == UNION {{p.id : p \in {secs[i].ps[j] : j \in DOMAIN secs[i].ps}} : i \in DOMAIN secs}
Fresh(secs) == LET id == Pick(Ids \ Used(secs)) IN [id |-> id, ts |-> TLCEval(Piece(id))]
RECURSIVE Pieces(_, _)
Pieces(i, secs) == IF i = 0 THEN secs ELSE LET s == TLCEval(Fresh(secs)) l == Len(secs) IN Pieces(i - 1, [secs EXCEPT ![l].ps = Append(@, s)])
New == LET head == Pick({"<?php", "<?php", "<?php", "@o\n<?php", "\n<?php"}) form == Pick({"none", "none", "line", "brace"})
           one == TLCEval(Pieces(Pick(1..4), <<[ns |-> IF form = "none" THEN "" ELSE "A", ps |-> <<>>]>>))
       IN [head |-> head \o Pick({" ", "\n"}), form |-> form, uni |-> Chance(3), eol |-> Pick({"lf", "crlf", "cr", "mix"}),
           secs |-> IF form = "brace" THEN TLCEval(Pieces(Pick(0..(4 - Len(one[1].ps))), Append(one, [ns |-> Pick({"", "B"}), ps |-> <<>>]))) ELSE one]
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Edited(d) ==
  IF Chance(8) THEN New
  ELSE LET i == Pick(DOMAIN d.secs) ps == d.secs[i].ps at == Pick(0..Len(ps))
       IN IF at > 0 /\ Chance(2)
          THEN [d EXCEPT !.secs[i].ps = IF Chance(2) THEN Drop(ps, at) ELSE [ps EXCEPT ![at] = [id |-> @.id, ts |-> TLCEval(Piece(@.id))]]]
          ELSE IF Cardinality(Used(d.secs)) > 3 THEN [d EXCEPT !.secs[i].ps = <<>>]
          ELSE LET f == TLCEval(Fresh(d.secs)) IN [d EXCEPT !.secs[i].ps = SubSeq(ps, 1, at) \o <<f>> \o SubSeq(ps, at + 1, Len(ps))]
\* the tokens of a document, each with its namespace
RECURSIVE Flat(_), OfSecs(_, _)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps).ts \o Flat(Tail(ps))
InNs(ts, ns) == [i \in DOMAIN ts |-> ts[i] @@ [ns |-> ns]]
OfSecs(d, i) ==
  IF i > Len(d.secs) THEN <<>>
  ELSE LET s == d.secs[i]
           open == CASE d.form = "line" -> "namespace A;" [] d.form = "brace" -> (IF s.ns = "" THEN "namespace {" ELSE "namespace " \o s.ns \o " {") [] OTHER -> ""
       IN <<[w |-> "", t |-> open, ns |-> ""]>> \o InNs(Flat(s.ps), s.ns) \o <<[w |-> "", t |-> IF d.form = "brace" THEN "}\n" ELSE "", ns |-> ""]>> \o OfSecs(d, i + 1)
Tokens(d) == <<[w |-> "", t |-> d.head, ns |-> ""]>> \o OfSecs(d, 1)
\* the declarations in order, with what each is in
Types == {"class", "iface", "trait"}
RECURSIVE Walk(_, _, _, _)
Walk(ts, i, st, acc) ==
  IF i > Len(ts) THEN acc
  ELSE LET t == ts[i]
       IN CASE t.w = "b" -> LET r == [k |-> t.k, n |-> t.n, id |-> t.id, in |-> IF st = <<>> THEN 0 ELSE Head(st).id,
                                      ns |-> IF t.k = "define" THEN "" ELSE t.ns, cls |-> IF st # <<>> /\ Head(st).k \in Types THEN Head(st).n ELSE ""]
                            IN Walk(ts, i + 1, <<r>> \o st, Append(acc, r))
            [] t.w = "e" -> Walk(ts, i + 1, Tail(st), acc)
            [] OTHER -> Walk(ts, i + 1, st, acc)
Members == {"method", "prop", "cconst"}
\* constants by either way of declaration are one kind of thing to a use
SameKind(a, b) == a = b \/ {a, b} \subseteq {"const", "define"} \/ {a, b} \subseteq {"class", "iface"}
Named(ds, u, ns) == {ds[i].id : i \in {i \in DOMAIN ds : ds[i].ns = ns /\ SameKind(ds[i].k, u.k) /\ ds[i].n = u.n /\ ds[i].cls = u.o}}
Target(ds, u) == IF u.k \in {"func", "const", "define"} /\ Named(ds, u, u.ns) = {} THEN Named(ds, u, "") ELSE Named(ds, u, u.ns)
Shown(d) == LET ts == TLCEval(Tokens(d)) ds == TLCEval(Walk(ts, 1, <<>>, <<>>))
            IN [eol |-> d.eol, uni |-> d.uni, decls |-> ds, ts |-> [i \in DOMAIN ts |-> CASE ts[i].w = "u" -> [w |-> "u", t |-> ts[i].t, k |-> ts[i].k, to |-> Target(ds, ts[i])]
                                                  [] ts[i].w \in {"b", "n"} -> [w |-> ts[i].w, t |-> IF ts[i].w = "n" THEN ts[i].t ELSE "", id |-> ts[i].id]
                                                  [] ts[i].w = "e" -> [w |-> "e"]
                                                  [] OTHER -> [w |-> ts[i].w, t |-> ts[i].t]]]
GInit == n = 0 /\ doc = [secs |-> <<>>] /\ done = <<>>
Emit(how) == done' = Append(done, Shown(doc') @@ [how |-> how])
GNext == \/ n = 0 /\ n' = 1 /\ (\E d \in {New} : doc' = d) /\ Emit("open")
         \/ n > 0 /\ n < MaxSteps /\ n' = n + 1 /\ (\E d \in {Edited(doc)} : doc' = d) /\ Emit(Pick({"full", "part", "typed", "two"}))
         \/ n = MaxSteps /\ n' = n + 1 /\ PrintT("@@" \o ToJson(done)) /\ UNCHANGED <<doc, done>>
GSpec == GInit /\ [][GNext]_vars
=============================================================================
