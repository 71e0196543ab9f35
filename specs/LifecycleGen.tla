--------------------------- MODULE LifecycleGen ---------------------------
(* Random sessions: lifecycle messages in any order, documents of any text (well-formed,
   broken, cut short), queries at any place, ill-typed and unknown messages. *)
EXTENDS Lifecycle, Integers, TLC, Json
CONSTANTS MaxSteps, Profile    \* Profile: "wild" (any order), "work" (mostly documents and queries)
VARIABLES n, h
gvars == <<phase, down, inits, n, h>>
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..k) = 1
Docs == {"a.php", "b.php", "sub/c.php", "other.txt"}
Odd == {"outside", "untitled", "empty", "nouri", "root"}
ADoc == IF Chance(2) THEN "a.php" ELSE IF Chance(12) THEN Pick(Odd) ELSE Pick(Docs)
Snippets == <<
  "<?php ", "namespace N;", "namespace M {", "use A\\B;", "use function A\\f;", "use A\\{B, C as D};", "use ",
  "class A ", "class B extends A ", "class A extends A ", "class C implements I, J ", "final class ", "abstract class D ", "new class(1) extends A ",
  "interface I extends I ", "interface J {", "trait T {", "use T;", "use T, U { foo as bar; }",
  "{", "}", "(", ")", "[", "]", ";", ",", "function f($a, A $b = null, ...$c) ", "function ", "function &g(): ?A ", "public static function m() ", "private function n(self $x): static ", "function __construct(A $a) ",
  "public $p = 1;", "protected static $q;", "var $r", "const X = 1;", "const ", "define('D', 1);", "define(", "define($a, 1);",
  "$a = $a;", "$a = $b; $b = $a;", "$a = $a->m();", "$a = new A; ", "$a", "$", "$$a", "${'x'}", "$this->p", "$this->", "$a->", "$a->m()->", "$a->$b", "$a->{'x'}", "->", "::", "A::", "A::$", "A::X", "A::m(", "self::", "parent::m();", "static::", "$a::",
  "\\A\\", "\\", "namespace\\C", "new ", "new \\A(", "foo(", "foo($a, ", "f(1)", "array(1, 2 => ", "list($a, $b) = $c;", "[$a, $b] = $c;",
  "foreach ($a as $k => $v) ", "foreach (", "for ($i = 0; $i < 1; $i++) ", "while ($a) ", "if ($a instanceof A) ", "else ", "switch ($a) { case 1: ", "try {", "} catch (A | B $e) {", "} finally {", "return ", "return $this;", "yield ", "global $a;", "static $s = 1;", "unset($a);", "goto x;", "x:",
  "function() use ($a) {", "function() use (&$a", "static fn($x) => $x;", "/** @var A $a */ ", "/** @param B $b\n * @return static|A[]\n */ ", "/** @deprecated */ ", "/** @method int foo(int $x)\n @property A $p */", "/**", "/*", "// x\n", "# y\n", "\n", "\r\n", "\t",
  "\"s {$a->p} $a[0] ${b}\" ", "\"", "'", "'s'", "<<<EOT\n a $a {$b}\nEOT;\n", "<<<'X'\n", "?>", "?><p><?= $a ?>", "<?=", "`ls`", "1.5e3", "0x1F", "!", "&", "...", "=>", "=", "@", "?", ":", "..", "{$x", "\"{$", "é", "😀", "/**\n * 😀 @return A */",
  "/** @author Me */", "/** @author M <m@x.y> ", "/** @method A f($a = 1", "/** @method A f($a = []) */", "/** @var ", "@return", "@", "use A, B\\", "\\ ", "use A as B, ", "\f", "<<<E\n", "<<<'E'\n$a", "/** @see A::m() {@inheritdoc} */", "/** @var array<int, A[]>|null $a */", "use T { T::foo insteadof U; foo as protected bar; }", "insteadof", "__halt_compiler();", "declare(strict_types=1);", "$f($a, 1)", "($a)(1, ", "$a['b'](1)", "A::{$x}(1)", "(function($x) {})(1)", "[$a, 'm'](1)", "$a->m[0](", "new $a(1, ", "new class(1, ", "A::$q->m(", "f()()", "$a->m()()", "'f'(1)", "self::X[0]", "static::$q::m(", "clone $a->", "isset($a->", "$a::class", "$$a->m(", "${'a'}->m(", "->m(", "::m(", "::$q", "A::X->", "parent::", "self::m()->"
  >>
(* A document which is in order, but for what is dropped from or put into it *)
Whole == <<
  "<?php\n", "namespace N;\n", "use N\\A as Alias, \\N\\I;\n", "use function N\\f;\n", "/** @deprecated */\n", "class A extends B implements I\n", "{\n",
  "  use T, U { T::foo insteadof U; U::foo as bar; }\n", "  const X = 1, Y = self::X;\n", "  /** @var A|B[] $p */\n", "  public $p = 1;\n", "  protected static ?A $q;\n",
  "  /**\n   * @param A $x\n   * @return static|self\n   */\n", "  public function m(A $x = null, B ...$rest): ?A\n", "  {\n", "    $y = $this->m($x)->m($x)->p;\n", "    foreach ($y as $k => $v) { $v->m($k)->m(); }\n", "    $f = function (A $z) use ($y, &$x) { return $z->m(); };\n",
  "    try { $t = new static($x); } catch (A | B $e) { $e->m(); }\n", "    return $y->p ? $this : parent::m(static::$q, self::X);\n", "  }\n", "  abstract protected static function n();\n", "}\n",
  "class B extends A { function __construct(A $a) {} }\n", "interface I extends I, J {}\n", "interface J extends I { const Z = 2; }\n", "trait T { use T; use U; public $tp; }\n", "trait U { use T; }\n",
  "/** @param A $a\n * @return A */\n", "function f(A $a, &$b = [1, 2]) {", " global $g;", " $g = f($a);", " $a = $a->m($a);", " $b = $a; $a = $b;", " return f(f($a, 1));", " }\n",
  "define('D', 1);\n", "const E = D;\n", "$o = new A(new B(f(1, 2)), );\n", "$o->m(\n", "  D, E)->p->m();\n", "A::n()->m(A::$q, A::X);\n", "list($l, list($r)) = [[$o], $o];\n", "$n = new class($o) extends A { function k() { return $this->m(); } };\n", "$n->k()->m();\n", "$f = 'f'; $f($o, 1); ($f)(1); $o->p['x'](2); (function ($x) { return $x; })(1); [$o, 'm'](3);\n", "$$f->m(1); $o->$f(1)->{'x'}(2); A::$f(1); $o::m(1); new $f(1); 'f'(1); f()(1); $o->m()(2);\n", "static::m(); self::X; parent::m(1);\n", "/** @var A $o */\n", "$o = f($o);\n", "echo \"{$o->p} $o->q ${o}\";\n", "?>\n<p><?= $o->m() ?>\n" >>
RECURSIVE Spoil(_, _)
Spoil(t, k) == IF k = 0 \/ t = <<>> THEN t ELSE
  LET i == Pick(1..Len(t)) w == Pick(1..4) IN
  Spoil(CASE w = 1 -> SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)) [] w = 2 -> SubSeq(t, 1, i) [] OTHER -> SubSeq(t, 1, i) \o <<Snippets[Pick(1..Len(Snippets))]>> \o SubSeq(t, i + 1, Len(t)), k - 1)
RECURSIVE Text(_)
Text(k) == IF k = 0 THEN <<>> ELSE <<Snippets[Pick(1..Len(Snippets))]>> \o Text(k - 1)
AText == IF Chance(10) THEN <<>> ELSE IF Chance(2) THEN Spoil(Whole, Pick(0..4)) ELSE <<"<?php ">> \o Text(IF Chance(3) THEN Pick(1..40) ELSE Pick(1..10))
ANumber == IF Chance(25) THEN Pick({2147483647, 100000, -1, 500}) ELSE IF Chance(3) THEN Pick(0..6) ELSE Pick(0..100)
ALine == IF Chance(2) THEN 0 ELSE IF Chance(25) THEN Pick({2147483647, 100000, -1, 50}) ELSE Pick(0..(IF Chance(2) THEN 8 ELSE 55))
Queries == {"textDocument/completion", "textDocument/hover", "textDocument/definition", "textDocument/references", "textDocument/documentSymbol",
  "textDocument/signatureHelp", "textDocument/rename", "documentSignatures", "textDocument/prepareRename", "workspace/symbol", "textDocument/codeLens", "textDocument/formatting",
  "textDocument/foldingRange", "textDocument/codeAction", "textDocument/typeDefinition", "textDocument/documentHighlight", "completionItem/resolve"}
Main == {"textDocument/completion", "textDocument/hover", "textDocument/definition", "textDocument/references", "textDocument/documentSymbol",
  "textDocument/signatureHelp", "textDocument/rename", "documentSignatures", "workspace/symbol"}
Notes == {"initialized", "exit", "workspace/didChangeConfiguration", "textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "textDocument/didSave",
  "textDocument/willSave", "workspace/didChangeWatchedFiles", "workspace/didChangeWorkspaceFolders", "$/progress", "$/setTraceNotification", "$/cancelRequest"}
Ill == {"missing", "null", "array", "string", "number", "nulls", "wrong", "empty"}
AQuery == [op |-> "query", m |-> IF Chance(8) THEN Pick(Queries) ELSE Pick(Main), d |-> ADoc, l |-> ALine, c |-> ANumber, at |-> IF Chance(4) THEN 0 ELSE Pick(1..400), word |-> Pick({"", "A", "m", "\\A\\", "x y", "😀"}), exp |-> "any"]
AWork ==
  LET k == Pick(1..20) IN
  CASE k <= 4 -> [op |-> "open", d |-> ADoc, text |-> AText, cut |-> IF Chance(3) THEN Pick(1..1800) ELSE 0, exp |-> "none"]
    [] k <= 7 -> [op |-> "change", d |-> ADoc, full |-> ~Chance(3), text |-> AText, r |-> <<ALine, ANumber, ALine, ANumber>>, exp |-> "none"]
    [] k = 8 -> [op |-> "close", d |-> ADoc, exp |-> "none"]
    [] k = 9 -> [op |-> "watch", d |-> ADoc, ty |-> Pick(1..3), text |-> AText, disk |-> Pick({"write", "remove", "leave", "dir"}), exp |-> "none"]
    [] k = 11 /\ Chance(3) -> [op |-> "sweep", d |-> "a.php", at |-> Pick(0..11), exp |-> "any"]
    [] k = 10 -> [op |-> "folder", add |-> Chance(2), which |-> Pick({"two", "sub", "gone", "nouri"}), exp |-> "none"]
    [] OTHER -> AQuery
AStrange ==
  LET k == Pick(1..12) IN
  CASE k = 1 -> [op |-> "unknown", req |-> TRUE, m |-> Pick({"foo/bar", "$/x", "textDocument/none"}), exp |-> "error"]
    [] k = 2 -> [op |-> "unknown", req |-> FALSE, m |-> Pick({"foo/bar", "$/x"}), exp |-> "none"]
    [] k <= 5 -> [op |-> "ill", req |-> TRUE, m |-> Pick(Queries), how |-> Pick(Ill), exp |-> "any"]
    [] k <= 7 -> [op |-> "ill", req |-> FALSE, m |-> Pick(Notes \ {"initialized"}), how |-> Pick(Ill), exp |-> "none"]
    [] k = 8 -> [op |-> "probe", exp |-> IF Serving THEN "served" ELSE "any"]
    [] OTHER -> AQuery
Send(m) == h' = Append(h, m)
Wild == IF Profile = "wild" THEN 4 ELSE 12
GInit == LInit /\ n = 0 /\ h = <<>>
Step == CASE n = 1 /\ ~Chance(Wild) -> "init"
          [] n = 2 /\ ~Chance(Wild) -> "inited"
          [] n = MaxSteps -> "probe"
          [] OTHER -> LET k == Pick(1..(IF Profile = "wild" THEN 24 ELSE 120)) IN
               IF k = 1 THEN "init" ELSE IF k = 2 THEN "inited" ELSE IF k = 3 THEN "shutdown" ELSE IF Chance(5) THEN "strange" ELSE "work"
GNext ==
  /\ n <= MaxSteps /\ n' = n + 1
  /\ \E what \in {Step} :
     CASE what = "init" -> \E f \in {IF Chance(5) THEN 0 ELSE Pick(1..2)} : Initialize(f) /\ Send([op |-> "init", folders |-> f, exp |-> InitAnswer(f)])
       [] what = "inited" -> Initialized /\ Send([op |-> "inited", exp |-> "none"])
       [] what = "shutdown" -> Shutdown /\ Send([op |-> "shutdown", exp |-> ShutdownAnswer])
       [] what = "probe" -> Other /\ Send([op |-> "probe", exp |-> IF Serving THEN "served" ELSE "any"])
       [] what = "strange" -> Other /\ \E m \in {AStrange} : Send(m)
       [] what = "work" -> Other /\ \E m \in {AWork} : Send(m)
  /\ n = MaxSteps => PrintT("@@" \o ToJson(h'))
GSpec == GInit /\ [][GNext]_gvars
===========================================================================
