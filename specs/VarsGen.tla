------------------------------ MODULE VarsGen ------------------------------
(* Documents of scopes within scopes: the file, functions, methods and closures, using the same
   few variable names in every kind of statement and expression. *)
EXTENDS Vars, TLC, Json, Integers
CONSTANTS MaxSteps
VARIABLES n, h, blocks, loops, open
gvars == <<n, h, blocks, loops, open>>
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..k) = 1
Names == {"$a", "$b", "$c", "$cé"}
NewScope == Pick(2..1000000000)
T(x) == [t |-> x, k |-> "-", v |-> "", s |-> 0, s2 |-> 0, e |-> 0, o |-> FALSE]
V(s, v, k) == [t |-> "", k |-> k, v |-> v, s |-> s, s2 |-> 0, e |-> 0, o |-> FALSE]
AVar(s, k) == V(s, Pick(Names), k)
Open(i) == [i EXCEPT !.o = TRUE]
R(s) == <<AVar(s, "r")>>
Lit == <<T(Pick({"1", "'s'", "X", "A::X", "null", "[]", "\"q\"", "self::Y", "1.5", "__DIR__", "$this", "$_GET", "A::$a", "$this->b", "\"é😀\""}))>>
\* a statement gives a variable the value of an expression
Assign(s, rhs) == <<[AVar(s, "w") EXCEPT !.e = Len(rhs) + 1], T(" = ")>> \o rhs
Compound(s, rhs) == <<[AVar(s, "c") EXCEPT !.e = Len(rhs) + 1], T(Pick({" .= ", " += ", " -= ", " *= ", " |= ", " <<= ", " **= "}))>> \o rhs
RECURSIVE Expr(_, _), Atom(_, _), Args(_, _)
\* an arrow function uses the variables of the scope it is in, except its own parameter
ArrowOf(s, z, p, body) ==
  LET mine(i) == IF i.s = s /\ i.v = p THEN [i EXCEPT !.s = z] ELSE i
      only == \A i \in 1..Len(body) : body[i].k \in {"w", "n", "c"} => (body[i].s # s \/ body[i].v = p)
  IN <<T("fn("), V(z, p, "w"), T(") => ")>> \o (IF only THEN [i \in 1..Len(body) |-> mine(body[i])] ELSE <<V(s, IF p = "$a" THEN "$b" ELSE "$a", "r")>>)
Join(a, x, b) == a \o <<T(x)>> \o b
Args(s, d) == LET k == Pick(0..3) IN
  CASE k = 0 -> <<>> [] k = 1 -> Expr(s, d) [] k = 2 -> Join(Expr(s, d), ", ", Atom(s, d)) [] OTHER -> Join(Atom(s, d), ", ...", R(s))
Atom(s, d) == LET k == IF d = 0 THEN Pick(0..1) ELSE Pick(0..44) IN
  CASE k = 0 -> Lit
    [] k \in {1, 2, 3, 4} -> R(s)
    [] k = 5 -> <<T("(")>> \o Expr(s, d - 1) \o (IF Chance(2) THEN <<>> ELSE <<T(Pick({" and ", " xor ", " or "}))>> \o Atom(s, d - 1)) \o <<T(")")>>
    [] k = 6 -> <<T("f(")>> \o Args(s, d - 1) \o <<T(")")>>
    [] k = 7 -> <<T("[")>> \o Expr(s, d - 1) \o <<T(", ")>> \o R(s) \o <<T(" => ")>> \o Atom(s, d - 1) \o <<T("]")>>
    [] k = 8 -> <<T("array(1, ")>> \o Expr(s, d - 1) \o <<T(")")>>
    [] k = 9 -> <<T("\"s ")>> \o R(s) \o <<T(" é ")>> \o R(s) \o <<T("\"")>>
    [] k = 10 -> <<T("\"{")>> \o R(s) \o <<T("->p} ")>> \o R(s) \o <<T("[0] ")>> \o R(s) \o <<T("->q\"")>>
    [] k = 11 -> R(s) \o <<T("->m(")>> \o Args(s, d - 1) \o <<T(")")>>
    [] k = 12 -> R(s) \o <<T("->p")>>
    [] k = 13 -> R(s) \o <<T("[")>> \o Expr(s, d - 1) \o <<T("]")>>
    [] k = 14 -> <<T("new A(")>> \o Args(s, d - 1) \o <<T(")")>>
    [] k = 15 -> <<T("new ")>> \o R(s) \o <<T("(")>> \o Args(s, d - 1) \o <<T(")")>>
    [] k = 16 -> R(s) \o <<T("::m(")>> \o Args(s, d - 1) \o <<T(")")>>
    [] k = 17 -> R(s) \o <<T("::X")>>
    [] k = 18 -> <<T("A::m(")>> \o Args(s, d - 1) \o <<T(")")>>
    [] k = 19 -> <<T("isset(")>> \o R(s) \o <<T(", ")>> \o R(s) \o <<T("[0])")>>
    [] k = 20 -> <<T("empty(")>> \o R(s) \o <<T(")")>>
    [] k = 21 -> R(s) \o <<T("(")>> \o Args(s, d - 1) \o <<T(")")>>
    [] k = 22 -> R(s) \o <<T("->m(")>> \o Args(s, d - 1) \o <<T(")->p->n(")>> \o Args(s, d - 1) \o <<T(")")>>
    [] k = 23 -> R(s) \o <<T("->")>> \o R(s)
    [] k = 24 -> R(s) \o <<T("->{")>> \o Expr(s, d - 1) \o <<T("}")>>
    [] k = 25 -> <<T("(")>> \o Assign(s, Expr(s, d - 1)) \o <<T(")")>>
    [] k = 26 -> <<T("`ls ")>> \o R(s) \o <<T("`")>>
    [] k = 27 -> <<T("<<<E\n a ")>> \o R(s) \o <<T(" é {")>> \o R(s) \o <<T("->p}\nE\n")>>
    [] k = 28 -> <<T("$")>> \o R(s)
    [] k = 29 -> R(s) \o <<T("['k'][")>> \o R(s) \o <<T("]")>>
    [] k = 30 -> <<T("new class(")>> \o Args(s, d - 1) \o <<T(") extends A { public $a = 1; function m() {} }")>>
    [] k = 31 -> <<T("exit(")>> \o Expr(s, d - 1) \o <<T(")")>>
    [] k = 32 -> <<T("eval(")>> \o Expr(s, d - 1) \o <<T(")")>>
    [] k = 33 -> <<T("(")>> \o Expr(s, d - 1) \o <<T(")->m()")>>
    [] k = 34 -> <<T("(yield ")>> \o Atom(s, d - 1) \o <<T(" => ")>> \o R(s) \o <<T(")")>>
    [] k = 35 -> <<T("(yield from ")>> \o Atom(s, d - 1) \o <<T(")")>>
    [] k = 36 -> <<T("\"${x} $")>> \o <<T("\"")>>
    [] k = 37 -> <<T("\"")>> \o R(s) \o <<T("[")>> \o R(s) \o <<T("] {")>> \o R(s) \o <<T("->m(")>> \o Args(s, 0) \o <<T(")}\"")>>
    [] k = 38 -> <<T("A::")>> \o R(s) \o <<T("()")>>
    [] k = 39 -> <<T("(")>> \o ArrowOf(s, NewScope, Pick(Names), Expr(s, d - 1)) \o <<T(")")>>
    [] k = 40 -> <<T("f(")>> \o ArrowOf(s, NewScope, Pick(Names), Expr(s, d - 1)) \o <<T(", ")>> \o R(s) \o <<T(")")>>
    [] OTHER -> R(s)
Binary == {" + ", " - ", " * ", " / ", " % ", " . ", " ** ", " & ", " | ", " ^ ", " << ", " >> ", " && ", " || ", " == ", " !== ", " < ", " >= ", " <=> ", " ?? ", " instanceof "}
Prefix == {"!", "-", "+", "~", "@", "(int)", "(array) ", "clone ", "print ", "include ", "include_once ", "require ", "require_once ", "throw_if(1) . "}
Expr(s, d) == LET k == Pick(0..15) IN
  CASE k <= 6 \/ d = 0 -> Atom(s, d)
    [] k <= 9 -> Join(Atom(s, d - 1), Pick(Binary \ {" instanceof "}), Atom(s, d - 1))
    [] k = 10 -> Join(R(s), " instanceof ", IF Chance(2) THEN <<T("A")>> ELSE R(s))
    [] k \in {11, 12} -> <<T(Pick(Prefix))>> \o Atom(s, d - 1)
    [] k = 13 -> Atom(s, d - 1) \o <<T(" ? ")>> \o Atom(s, d - 1) \o <<T(" : ")>> \o Atom(s, d - 1)
    [] k = 14 -> Atom(s, d - 1) \o <<T(" ?: ")>> \o Atom(s, d - 1)
    [] OTHER -> <<AVar(s, "n"), T(Pick({"++", "--"}))>>
E2(s) == Expr(s, 2)
Params(s) == LET k == Pick(0..4) IN
  CASE k = 0 -> <<>>
    [] k = 1 -> <<V(s, "$a", "w")>>
    [] k = 2 -> <<T("A "), V(s, "$b", "w"), T(" = null, ?int "), V(s, "$a", "w"), T(" = 1")>>
    [] k = 3 -> <<T("&"), Open(V(s, "$a", "w")), T(", "), V(s, "$cé", "w")>>
    [] OTHER -> <<V(s, "$b", "w"), T(", A ..."), V(s, "$c", "w")>>
\* a closure uses variables of the scope it is in: they are read there, and given a value in it
Use(s, v, ref) == [V(s[1], v, "u") EXCEPT !.s2 = s[2], !.o = ref]
Uses(s) == LET k == Pick(0..4) IN
  CASE k <= 1 -> <<>>
    [] k = 2 -> <<T(" use ("), Use(s, "$a", FALSE), T(")")>>
    [] k = 3 -> <<T(" use ("), Use(s, "$b", FALSE), T(", &"), Use(s, "$c", TRUE), T(")")>>
    [] OTHER -> <<T(" use (&"), Use(s, "$a", TRUE), T(")")>>
Scope == blocks[Len(blocks)].s
IsClass == blocks[Len(blocks)].kind = "class"
Simple(s) == LET k == Pick(1..22) IN
  CASE k <= 6 -> Assign(s, E2(s)) \o <<T(";")>>
    [] k = 7 -> Compound(s, E2(s)) \o <<T(";")>>
    [] k <= 10 -> <<T("echo ")>> \o E2(s) \o <<T(", ")>> \o E2(s) \o <<T(";")>>
    [] k = 11 -> E2(s) \o <<T(";")>>
    [] k = 12 -> <<T("static "), Open(AVar(s, "w")), T(" = 1, "), Open(AVar(s, "w")), T(";")>>
    [] k = 13 -> <<T("global "), Open(AVar(s, "w")), T(", "), Open(AVar(s, "w")), T(";")>>
    [] k = 14 -> LET rhs == E2(s) a == AVar(s, "w") IN <<T("list("), [a EXCEPT !.e = Len(rhs) + 3], T(", "), [AVar(s, "w") EXCEPT !.e = Len(rhs) + 1], T(") = ")>> \o rhs \o <<T(";")>>
    [] k = 15 -> LET rhs == E2(s) IN <<T("["), [AVar(s, "w") EXCEPT !.e = Len(rhs) + 4], T(", 'k' => ["), [AVar(s, "w") EXCEPT !.e = Len(rhs) + 1], T("]] = ")>> \o rhs \o <<T(";")>>
    [] k = 16 -> <<T("unset("), AVar(s, "m"), T(");")>>
    [] k = 17 -> <<AVar(s, "m"), T("["), AVar(s, "r"), T("] = ")>> \o E2(s) \o <<T(";")>>
    [] k = 18 -> R(s) \o <<T("->p = ")>> \o E2(s) \o <<T(";")>>
    [] k = 19 -> <<Open([AVar(s, "w") EXCEPT !.e = 2]), T(" = &"), Open(AVar(s, "r")), T(";")>>
    [] k = 20 -> <<T("return ")>> \o E2(s) \o <<T(";")>>
    [] k = 21 -> <<T("throw ")>> \o E2(s) \o <<T(";")>>
    [] OTHER -> <<T("goto x; x: /* $a */ // $b\n")>>
Push(kind, s, from, close) == blocks' = Append(blocks, [kind |-> kind, s |-> s, from |-> from, close |-> close])
Emit(items) == h' = h \o items \o <<T(Pick({"\n", " ", "\n  ", "\r\n"}))>>
\* blocks of statements; a loop's body is run again, not what it begins with
Begin ==
  LET s == Scope k == Pick(1..14) IN
  CASE k = 1 -> \E e \in {E2(s)} : Emit(<<T("if (")>> \o e \o <<T(") {")>>) /\ Push("if", s, 0, "}")
    [] k = 2 -> \E e \in {E2(s)} : Emit(<<T("while (")>> \o e \o <<T(") {")>>) /\ Push("loop", s, Len(h) + 1, "}")
    [] k = 3 -> \E e \in {E2(s)} : \E v \in {<<AVar(s, "w"), AVar(s, "w")>>} : \E b \in {Chance(4)} :
         Emit(<<T("foreach (")>> \o e \o <<T(" as "), v[1], T(IF b THEN " => &" ELSE " => "), [v[2] EXCEPT !.o = b], T(") {")>>) /\ Push("loop", s, Len(h) + Len(e) + 2, "}")
    [] k = 4 -> \E e \in {E2(s)} : \E v \in {AVar(s, "w")} : Emit(<<T("foreach (")>> \o e \o <<T(" as "), v, T("):")>>) /\ Push("loop", s, Len(h) + Len(e) + 2, "endforeach;")
    [] k = 5 -> \E e \in {<<Assign(s, E2(s)), E2(s), E2(s)>>} :
         Emit(<<T("for (")>> \o e[1] \o <<T("; ")>> \o e[2] \o <<T("; ")>> \o e[3] \o <<T(") {")>>) /\ Push("loop", s, Len(h) + Len(e[1]) + 2, "}")
    [] k = 6 -> Emit(<<T("try {")>>) /\ Push("try", s, 0, "}")
    [] k = 7 -> \E e \in {E2(s)} : Emit(<<T("switch (")>> \o e \o <<T(") { case ")>> \o Atom(s, 1) \o <<T(":")>>) /\ Push("switch", s, 0, "}")
    [] k = 8 -> Emit(<<T("do {")>>) /\ Push("do", s, Len(h) + 1, "}")
    [] k = 9 -> Emit(<<T("declare(ticks=1) {")>>) /\ Push("if", s, 0, "}")
    [] k \in {10, 11} -> \E z \in {NewScope} : \E p \in {Params(z) \o <<T(")")>> \o Uses(<<s, z>>)} : \E v \in {AVar(s, "w")} : \E st \in {IF Chance(4) THEN "static " ELSE ""} :
         /\ Emit(<<[v EXCEPT !.e = Len(p) + 4], T(" = "), T(st), T("function (")>> \o p \o <<T(" {")>>) /\ Push("fn", z, 0, "};")
    [] k = 12 -> \E z \in {NewScope} : \E p \in {Params(z) \o <<T(")")>> \o Uses(<<s, z>>)} :
         /\ Emit(<<T("f("), AVar(s, "r"), T(", function (")>> \o p \o <<T(": ?A {")>>) /\ Push("fn", z, 0, "}, 1);")
    [] k = 13 -> \E z \in {NewScope} : \E p \in {Params(z)} : Emit(<<T("function f"), T(ToString(z)), T("(")>> \o p \o <<T(") {")>>) /\ Push("fn", z, 0, "}")
    [] OTHER -> Emit(<<T("class C"), T(ToString(NewScope)), T(" extends A { const X = 1; public $a = self::X; static $b = 1;")>>) /\ Push("class", 0, 0, "}")
Method == \E z \in {NewScope} : \E p \in {Params(z)} :
  IF Chance(5) THEN Emit(<<T("abstract function g"), T(ToString(z)), T("(")>> \o [i \in 1..Len(p) |-> IF p[i].k = "w" THEN [p[i] EXCEPT !.k = "x"] ELSE p[i]] \o <<T(");")>>) /\ UNCHANGED blocks
  ELSE Emit(<<T(Pick({"public ", "private static ", ""})), T(Pick({"function m", "function &m"})), T(ToString(z)), T("(")>> \o p \o <<T(") {")>>) /\ Push("fn", z, 0, "}")
Pop == blocks' = SubSeq(blocks, 1, Len(blocks) - 1)
Turn(kind, close) == blocks' = [blocks EXCEPT ![Len(blocks)].kind = kind, ![Len(blocks)].close = close]
Ending == n > MaxSteps - 14
Close ==
  LET b == blocks[Len(blocks)] s == b.s IN
  CASE b.kind = "loop" -> Emit(<<T(b.close)>>) /\ loops' = loops \cup {[s |-> s, from |-> b.from, to |-> Len(h)]} /\ Pop
    [] b.kind = "do" -> \E e \in {E2(s)} : Emit(<<T("} while (")>> \o e \o <<T(");")>>) /\ loops' = loops \cup {[s |-> s, from |-> b.from, to |-> Len(h) + Len(e) + 1]} /\ Pop
    [] b.kind = "try" -> \E v \in {AVar(s, "x")} : (IF ~Ending /\ Chance(3) THEN Emit(<<T("} finally {")>>) ELSE Emit(<<T("} catch (A | \\B "), v, T(") {")>>)) /\ Turn("catch", "}") /\ UNCHANGED loops
    [] ~Ending /\ b.kind = "catch" /\ Chance(3) -> Emit(<<T("} finally {")>>) /\ Turn("if", "}") /\ UNCHANGED loops
    [] ~Ending /\ b.kind = "if" /\ Chance(3) -> \E e \in {E2(s)} : Emit(IF Chance(2) THEN <<T("} elseif (")>> \o e \o <<T(") {")>> ELSE <<T("} else {")>>) /\ UNCHANGED <<blocks, loops>>
    [] ~Ending /\ b.kind = "switch" /\ Chance(2) -> \E e \in {Atom(s, 1)} : Emit(IF Chance(2) THEN <<T("break; case ")>> \o e \o <<T(":")>> ELSE <<T("default:")>>) /\ UNCHANGED <<blocks, loops>>
    [] OTHER -> Emit(<<T(b.close)>>) /\ Pop /\ UNCHANGED loops
GInit == n = 0 /\ h = <<T(IF RandomElement(1..4) = 1 THEN "<p>é</p><?php\n" ELSE "<?php\n")>> /\ blocks = <<[kind |-> "file", s |-> 1, from |-> 0, close |-> ""]>> /\ loops = {} /\ open = {}
-----------------------------------------------------------------------------
(* What is expected: the items as they are, and of each occurrence what is reported of it *)
Given(i) == IF h[i].k = "u" THEN "w" ELSE h[i].k
\* the scope a closure's use gives a value in is the second
Outer == [i \in 1..Len(h) |-> IF h[i].k = "u" THEN [h[i] EXCEPT !.k = "r"] ELSE h[i]]
Inner == [i \in 1..Len(h) |-> IF h[i].k = "u" THEN [h[i] EXCEPT !.k = "w", !.s = h[i].s2] ELSE h[i]]
Hidden == {<<h[i].s, h[i].v>> : i \in {j \in 1..Len(h) : h[j].o}} \cup {<<h[i].s2, h[i].v>> : i \in {j \in 1..Len(h) : h[j].o /\ h[j].k = "u"}}
Said(outer, inner, hidden, i) == IF h[i].k = "u" THEN Verdict([outer EXCEPT ![i] = inner[i]], loops, hidden, i) ELSE IF h[i].v = "" THEN "" ELSE Verdict(outer, loops, hidden, i)
Out == LET o == TLCEval(Outer) z == TLCEval(Inner) hid == TLCEval(Hidden) IN
  [i \in 1..Len(h) |-> IF h[i].v = "" THEN [t |-> h[i].t] ELSE [v |-> h[i].v, s |-> h[i].s, s2 |-> h[i].s2, said |-> Said(o, z, hid, i)]]
GNext ==
  /\ n <= MaxSteps + 1 /\ n' = n + 1 /\ UNCHANGED open
  /\ IF n > MaxSteps \/ (n = MaxSteps /\ Len(blocks) = 1) THEN (n = MaxSteps + 1 => PrintT("@@" \o ToJson(Out))) /\ UNCHANGED <<h, blocks, loops>>
     ELSE IF n = MaxSteps THEN UNCHANGED <<h, blocks, loops>>
     ELSE IF Len(blocks) > 1 /\ (Ending \/ Chance(5)) THEN Close
     ELSE IF IsClass THEN Method /\ UNCHANGED loops
     ELSE IF Len(blocks) < 5 /\ ~Ending /\ Chance(3) THEN Begin /\ UNCHANGED loops
     ELSE \E items \in {Simple(Scope)} : Emit(items) /\ UNCHANGED <<blocks, loops>>
GSpec == GInit /\ [][GNext]_gvars
===========================================================================
