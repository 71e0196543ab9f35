--------------------------- MODULE DiagnosticsGen ---------------------------
(* Histories of opens, changes, closes and changes on the disk of a few documents, with pauses. Each
   step says, of every open document, the sets of things which may be said about it last: one for each
   index which there may have been since its text was last changed. *)
EXTENDS Diagnostics, TLC, Json
CONSTANT MaxSteps
VARIABLES n, open, disk, poss, may, live, done
vars == <<n, open, disk, poss, may, live, done>>
Docs == 1..3
Names == {"1", "2", "3"}
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..k) = 1
P(t) == [t |-> t, w |-> ""]
M(t, w) == [t |-> t, w |-> w]
D(t, k, x, m, dep, sup) == [t |-> t, w |-> "decl", r |-> [k |-> k, n |-> x, m |-> m], d |-> dep, sup |-> sup]
U(t, k, x, m) == [t |-> t, w |-> "use", r |-> [k |-> k, n |-> x, m |-> m]]
Doc(dep) == IF dep THEN Pick({"/** @deprecated */ ", "/** @deprecated 1.2 gone */ ", "/**\n * Text\n * @deprecated Since long\n */\n", "/** @deprecated\n @since 1 */ "})
            ELSE Pick({"", "", "/** Text */ ", "/** @since 1.2 */ "})
Member(k, x) == LET dep == Chance(2)
  IN <<P(Doc(dep)),
       CASE k = "method" -> D("public function m() {}\n", k, x, "m", dep, "")
         [] k = "smethod" -> D("static function sm() {}\n", k, x, "sm", dep, "")
         [] k = "prop" -> D("public $p;\n", k, x, "p", dep, "")
         [] k = "sprop" -> D("public static $sp;\n", k, x, "sp", dep, "")
         [] OTHER -> D("const CC = 1;\n", k, x, "CC", dep, "")>>
RECURSIVE Members(_, _)
Members(ks, x) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : TRUE IN (IF Chance(2) THEN Member(k, x) ELSE <<>>) \o Members(ks \ {k}, x)
Decl(w) ==
  LET x == IF Chance(6) THEN Pick(Names) ELSE ToString((w \div 10) % 10) dep == Chance(2)
  IN CASE Chance(4) -> <<P(Doc(dep)), D("function f" \o x \o "() {}\n", "func", x, "", dep, "")>>
       [] Chance(5) -> <<P(Doc(dep)), D(Pick({"const K" \o x \o " = 1;\n", "define('K" \o x \o "', 1);\n"}), "const", x, "", dep, "")>>
       [] Chance(5) -> LET d2 == Chance(2) IN <<P(Doc(dep)), D("interface I" \o x \o " {\n", "iface", "I" \o x, "", dep, ""), P(Doc(d2)), D("public function m();\n", "method", "I" \o x, "m", d2, ""), P("}\n")>>
       [] OTHER -> LET sup == IF Chance(2) THEN Pick({"C0", "C0", "T0"}) ELSE ""
                   IN <<P(Doc(dep)), D("class C" \o x \o " ", "class", "C" \o x, "", dep, sup)>>
                      \o (IF sup = "" THEN <<P("{\n")>> ELSE IF sup = "T0" THEN <<P("{ use T0;\n")>> ELSE <<P("extends "), U("C0", "class", "C0", ""), P(" {\n")>>)
                      \o Members(MemberKind, "C" \o x) \o <<P("}\n")>>
\* the parent and the trait are always declared, in the first document
Parent == LET dep == Chance(4) IN <<P(Doc(dep)), D("class C0 {\n", "class", "C0", "", dep, "")>> \o Members(MemberKind, "C0") \o <<P("}\n"), D("trait T0 {\n", "trait", "T0", "", FALSE, "")>> \o Members(MemberKind \ {"cconst"}, "T0") \o <<P("}\n")>>
\* w tells the functions around apart
Uses(w) ==
  LET x == Pick(Names) c == "C" \o x b == Pick({"C" \o x, "\\C" \o x}) i == "I" \o x fn == "function w" \o w
  IN Pick({<<U("f" \o x, "func", x, ""), P("();\n")>>, <<P("$GLOBALS['a'] = \\strlen("), U("f" \o x, "func", x, ""), P("());\n")>>,
           <<P("return "), U("K" \o x, "const", x, ""), P(";\n")>>,
           <<P("echo new "), U(b, "class", c, ""), P(";\n")>>, <<P("echo new "), U(b, "class", c, ""), P("(1);\n")>>,
           <<P(fn \o "("), U(b, "class", c, ""), P(" $o) { return $o->"), U("m", "method", c, "m"), P("(); }\n")>>,
           <<P(fn \o "("), U(b, "class", c, ""), P(" $o) { return $o->"), U("p", "prop", c, "p"), P("; }\n")>>,
           <<P(fn \o "("), U(i, "iface", i, ""), P(" $o) { return $o->"), U("m", "method", i, "m"), P("(); }\n")>>,
           <<P(fn \o "(): "), U(b, "class", c, ""), P(" { return 1; }\n")>>,
           <<P("echo "), U(b, "class", c, ""), P("::"), U("sm", "smethod", c, "sm"), P("();\n")>>,
           <<P("echo "), U(b, "class", c, ""), P("::"), U("$sp", "sprop", c, "sp"), P(";\n")>>,
           <<P("echo "), U(b, "class", c, ""), P("::"), U("CC", "cconst", c, "CC"), P(";\n")>>,
           <<P("class W" \o w \o " implements "), U(i, "iface", i, ""), P(" { function m() {} }\n")>>,
           <<P("class W" \o w \o " extends "), U(b, "class", c, ""), P(" {}\n")>>,
           <<P(fn \o "($q) { try { return $q; } catch ("), U(b, "class", c, ""), P(" $e) { return $e; } }\n")>>,
           <<P(fn \o "(?"), U(b, "class", c, ""), P(" $o) { return $o; }\n")>>,
           <<P(fn \o "($q): ?"), U(b, "class", c, ""), P(" { return $q; }\n")>>,
           <<P(fn \o "() { $o = new "), U(b, "class", c, ""), P("; return $o->"), U("p", "prop", c, "p"), P(" . $o->"), U("m", "method", c, "m"), P("(); }\n")>>,
           <<P("interface W" \o w \o " extends "), U(i, "iface", i, ""), P(" {}\n")>>,
           <<P("class W" \o w \o " { public "), U(b, "class", c, ""), P(" $x; }\n")>>,
           <<P("class W" \o w \o " extends "), U(b, "class", c, ""), P(" { function n() { return $this->"), U("p", "prop", c, "p"), P(" . "), [U("parent", "class", c, "") EXCEPT !.w = "may"], P("::"), U("sm", "smethod", c, "sm"), P("() . self::"), U("CC", "cconst", c, "CC"), P("; } }\n")>>,
           <<P("echo "), U("\\K" \o x, "const", x, ""), P(";\n")>>,
           <<P(fn \o "() { return "), U("\\f" \o x, "func", x, ""), P("(); }\n")>>,
           <<P(fn \o "($q) { return $q instanceof "), U(b, "class", c, ""), P("; }\n")>>})
Complaint(w) ==
  Pick({<<P("function w" \o w \o "() { "), M("$v" \o w, "unused"), P(" = 1; }\n")>>, <<P("function w" \o w \o "() { $v = 1; return $v; }\n")>>,
        <<P("function w" \o w \o "() { "), M("$v", "unused"), P(" = 1; $v2 = 2; return $v2; }\n")>>,
        <<P("use "), M("A\\B" \o w, "import"), P(";\n")>>, <<P("use A\\B" \o w \o "; echo new B" \o w \o ";\n")>>,
        <<P("use "), M("A\\B" \o w \o " as X" \o w, "import"), P(";\n")>>,
        <<P("use A\\{"), M("B" \o w, "import"), P(", C" \o w \o "}; echo C" \o w \o "::D;\n")>>,
        <<P("function w" \o w \o "("), M(") { return (; }\n", "error")>>, <<M("echo 1 + ;\n", "error")>>,
        <<P("// text\n")>>, <<P("\n")>>, <<P("/* @a~@o */ ")>>, <<P("echo '@a@a@o';")>>})
Piece(w) == LET s == ToString(w) IN CASE Chance(3) -> Decl(w) [] Chance(3) -> Complaint(s) [] OTHER -> Uses(s)
RECURSIVE Pieces(_, _)
Pieces(i, base) == IF i = 0 THEN <<>> ELSE Append(Pieces(i - 1, base), Piece(base + i))
NewText(d) == IF d = 1 THEN <<Parent>> \o Pieces(Pick(0..4), 10 * d) ELSE Pieces(Pick(0..6), 10 * d)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Edit(d, s) ==
  IF Len(s) < 2 \/ Chance(6) THEN NewText(d)
  ELSE LET i == Pick(2..Len(s)) fresh == Piece(10 * d + 100 * n + Pick(0..9))
       IN CASE Chance(3) -> [s EXCEPT ![i] = fresh] [] Chance(2) -> Without(s, i) [] OTHER -> SubSeq(s, 1, i - 1) \o <<fresh>> \o SubSeq(s, i, Len(s))
Shown(o, k, d) == IF o[d] # None THEN Declares(o[d][1]) ELSE IF k[d] # None THEN Declares(k[d][1]) ELSE {}
Index(o, k) == [d \in Docs |-> Shown(o, k, d)]
\* what d contributes becomes c, at once or at some time from now on
Becomes(S, d, c) == {[x EXCEPT ![d] = c] : x \in S}
Kinded(t, S) == {[p |-> p[1], j |-> p[2], w |-> At(t, p).w] : p \in S}
Wants(d, o, m) == IF o[d] = None THEN {} ELSE LET t == o[d][1] IN
  
  {[must |-> Kinded(t, Immediate(t) \cup UsesOf(t, x, Must)), may |-> Kinded(t, UsesOf(t, x, May)) \cup Kinded(t, {p \in Real(t) : At(t, p).w = "may"})] : x \in m[d]}
Emit(a, d, eol, inc, o, m) ==
  done' = Append(done, [a |-> a, d |-> d, eol |-> eol, inc |-> inc, text |-> IF a \in {"open", "change"} THEN o[d][1] ELSE IF a = "disk" /\ disk'[d] # None THEN disk'[d][1] ELSE <<>>,
                        gone |-> a = "disk" /\ disk'[d] = None,
                        want |-> [e \in Docs |-> IF a = "wait" THEN Wants(e, o, m) ELSE {}], now |-> [e \in Docs |-> o[e] # None]])
\* the index may be anything of S now; whoever's computation is still to come may see it
SetIndex(S, d) == poss' = S /\ may' = [e \in Docs |-> IF e = d THEN S ELSE IF live[e] THEN may[e] \cup S ELSE may[e]]
GInit == /\ n = 0 /\ open = [d \in Docs |-> None] /\ disk = open /\ poss = {} /\ may = [d \in Docs |-> {}]
         /\ live = [d \in Docs |-> FALSE] /\ done = <<>>
Start == /\ \E t1 \in {NewText(1)}, t2 \in {NewText(2)}, t3 \in {NewText(3)} :
              disk' = <<<<t1>>, IF Chance(2) THEN <<t2>> ELSE None, IF Chance(2) THEN <<t3>> ELSE None>>
         /\ poss' = {Index(open, disk')} /\ UNCHANGED <<open, may, live>>
         /\ done' = <<[a |-> "start", d |-> 0, disk |-> disk']>>
SetText(d, t) == /\ open' = [open EXCEPT ![d] = <<t>>] /\ UNCHANGED disk /\ live' = [live EXCEPT ![d] = TRUE]
                 /\ SetIndex(Becomes(poss, d, Declares(t)), d)
Open(d) == open[d] = None /\ \E t \in {IF disk[d] # None /\ Chance(2) THEN disk[d][1] ELSE NewText(d)} :
             SetText(d, t) /\ Emit("open", d, Pick({"\n", "\n", "\r\n", "\r"}), FALSE, open', may')
Change(d) == open[d] # None /\ \E t \in {Edit(d, open[d][1])} : SetText(d, t) /\ Emit("change", d, "", Chance(2), open', may')
Later(d, o, k) == LET S == Becomes(poss, d, Shown(o, k, d)) IN SetIndex(poss \cup S, 0)
Close(d) == /\ open[d] # None /\ open' = [open EXCEPT ![d] = None] /\ UNCHANGED <<disk>> /\ live' = [live EXCEPT ![d] = FALSE]
            /\ Later(d, open', disk) /\ Emit("close", d, "", FALSE, open', may')
Disk(d) == /\ \E t \in {IF d > 1 /\ disk[d] # None /\ Chance(4) THEN None ELSE <<NewText(d)>>} : disk' = [disk EXCEPT ![d] = t]
           /\ UNCHANGED <<open, live>> /\ Later(d, open, disk') /\ Emit("disk", d, "", FALSE, open, may')
Wait == /\ poss' = {Index(open, disk)} /\ live' = [d \in Docs |-> FALSE] /\ UNCHANGED <<open, disk, may>> /\ Emit("wait", 0, "", FALSE, open, may)
Short == UNCHANGED <<open, disk, poss, may, live>> /\ Emit("short", 0, "", FALSE, open, may)
IsOpen(d) == open[d] # None
Act == \E d \in {Pick(Docs)} :
            CASE ~ \E e \in Docs : IsOpen(e) -> Open(d)
            [] Len(done) > 2 /\ done[Len(done)].a # "wait" /\ Chance(7) -> Wait
            [] Chance(5) -> Short
            [] ~IsOpen(d) -> (IF Chance(4) THEN Disk(d) ELSE Open(d))
            [] Chance(7) -> Close(d)
            [] Chance(12) -> Disk(d)
            [] OTHER -> Change(d)
GNext == \/ n = 0 /\ n' = 1 /\ Start
         \/ n > 0 /\ n < MaxSteps /\ n' = n + 1 /\ Act
         \/ n = MaxSteps /\ n' = n + 1 /\ Wait
         \/ n = MaxSteps + 1 /\ n' = n + 1 /\ PrintT("@@" \o ToJson(done)) /\ UNCHANGED <<open, disk, poss, may, live, done>>
GSpec == GInit /\ [][GNext]_vars
=============================================================================
