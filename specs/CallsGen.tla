------------------------------ MODULE CallsGen ------------------------------
(* A library of functions and classes, and a document of calls to them, one of which may be unfinished.
   What the signature is at the places in them, and what the hints beside the arguments are, is computed
   from the tokens (specs/Calls.tla) and the library. Both files change. *)
EXTENDS Calls, FiniteSets, TLC, Json
CONSTANT MaxSteps
VARIABLES n, lib, doc, done
vars == <<n, lib, doc, done>>
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..k) = 1
S(i) == ToString(i)
\* ---- the library: parameters have a type, a name and a default value
Types == {"", "", "int", "K1", "K2", "array", "string"}
Defaults == {"1", "null", "'x, (y'", "[1, 2]", "K1::CA", "-1"}
RECURSIVE Params(_, _, _)
Params(q, i, opt) == IF i > Len(q) THEN <<>>
  ELSE LET o == opt \/ Chance(3) IN <<[t |-> Pick(Types), n |-> q[i], d |-> IF o THEN Pick(Defaults) ELSE ""]>> \o Params(q, i + 1, o)
NewParams == Params(SubSeq(Pick({<<"$a", "$b", "$c">>, <<"$b", "$x", "$y">>, <<"$n~e", "$a", "$z">>}), 1, Pick(0..3)), 1, FALSE)
None == <<[t |-> "none", n |-> "", d |-> ""]>>
Maybe == IF Chance(3) THEN None ELSE TLCEval(NewParams)
NewLib == [f |-> [i \in 1..3 |-> TLCEval(NewParams)],
           c |-> [i \in 1..3 |-> [up |-> IF i > 1 /\ Chance(2) THEN Pick(1..(i - 1)) ELSE 0, ctor |-> TLCEval(Maybe), m |-> TLCEval(Maybe), sm |-> TLCEval(Maybe)]]]
ChangedLib(l) == CASE Chance(3) -> LET i == Pick(1..3) p == TLCEval(NewParams) IN [l EXCEPT !.f[i] = p]
                   [] Chance(2) -> LET i == Pick(1..3) p == TLCEval(Maybe) k == Pick(1..3) IN CASE k = 1 -> [l EXCEPT !.c[i].ctor = p] [] k = 2 -> [l EXCEPT !.c[i].m = p] [] OTHER -> [l EXCEPT !.c[i].sm = p]
                   [] OTHER -> LET i == Pick(2..3) IN [l EXCEPT !.c[i].up = Pick(0..(i - 1))]
\* what is called: the parameters, or nothing
RECURSIVE Member(_, _, _)
Member(l, i, w) == IF i = 0 THEN None
  ELSE LET p == CASE w = "ctor" -> l.c[i].ctor [] w = "m" -> l.c[i].m [] OTHER -> l.c[i].sm IN IF p # None THEN p ELSE Member(l, l.c[i].up, w)
Callee(l, f) == CASE f.k = "k" -> <<>> [] f.k = "anon" -> <<[t |-> "int", n |-> "$q", d |-> ""], [t |-> "", n |-> "$r", d |-> "1"]>> [] f.k = "f" -> IF f.i > 3 THEN None ELSE l.f[f.i] [] OTHER -> Member(l, f.i, f.k)
\* ---- the calls
T(w, t) == <<[w |-> w, t |-> t]>>
X(t) == T("x", t)
Open(k, i) == <<[w |-> "(", t |-> "(", f |-> [k |-> k, i |-> i]]>>
Gap == IF Chance(4) THEN T("s", Pick({" ", "\n", "/* ~e, ( */", " // ), x\n", "  ", "/* , */"})) ELSE <<>>
Lit == X(Pick({"1", "'~e, ('", "\"@o)\"", "$x", "$x->p", "1 + 2", "-1", "(1 + 2)", "$x[1]", "K1::CA", "!$x", "$x ? 1 : 2", "null"}))
\* a function which gives an object
Get(i) == X("k" \o S(i)) \o Open("k", 0) \o Gap \o T(")", ")")
RECURSIVE Call(_), ArgsOf(_, _, _), Arg(_), Anon(_)
Args(w, d) == ArgsOf(w, 0, d)
Call(d) == LET i == Pick(1..3) IN
  CASE Chance(3) -> X("f" \o S(Pick({i, i, i, 4}))) \o Gap \o Args("f", d) [] Chance(3) -> X("new") \o T("s", " ") \o X("K" \o S(i)) \o Args("ctor", d)
    [] Chance(3) -> X("K" \o S(i)) \o Gap \o X("::") \o Gap \o X("sm") \o Gap \o Args("sm", d)
    [] Chance(2) -> Get(i) \o Gap \o X("->") \o Gap \o X("m") \o Gap \o Args("m", d)
    [] OTHER -> X("(") \o X("new") \o T("s", " ") \o X("K" \o S(i)) \o Args("ctor", d) \o X(")") \o X("->") \o X("m") \o Args("m", d)
RECURSIVE More(_, _)
More(k, d) == IF k = 0 THEN <<>> ELSE T(",", ",") \o Gap \o Arg(d) \o Gap \o More(k - 1, d)
\* the index of the callee is the last one written before
ArgsOf(w, i, d) == Open(w, i) \o Gap \o (IF Chance(4) THEN <<>> ELSE Arg(d) \o Gap \o More(Pick(0..3), d)) \o T(")", ")")
\* a class in an expression, with a constructor or an inherited one
Anon(d) == IF Chance(2) THEN X("new") \o T("s", " ") \o X("class") \o Gap \o ArgsOf("anon", 1, d) \o T("[", " { public function __construct(int $q, $r = 1) {") \o T("s", " ") \o Lit \o X(";") \o T("]", "} }")
           ELSE LET i == Pick(1..3) IN X("new") \o T("s", " ") \o X("class") \o ArgsOf("ctor", i, d) \o X(" extends K" \o S(i)) \o T("[", " {") \o T("]", " }")
Arg(d) == IF d = 0 \/ Chance(2) THEN Lit
  ELSE CASE Chance(2) -> Call(d - 1)
         [] Chance(3) -> T("[", "[") \o Lit \o T(",", ",") \o Call(d - 1) \o T("]", "]")
         [] Chance(3) -> T("[", "function ($q, $r) {") \o T("s", " ") \o Call(d - 1) \o X(";") \o T("]", "}")
         [] Chance(4) -> Anon(d - 1)
         [] Chance(2) -> X("1") \o X(" + ") \o Call(d - 1)
         [] Chance(2) -> X("(") \o Call(d - 1) \o X(")")
         [] OTHER -> Call(d - 1) \o X(" . ") \o Lit
\* a call which is being written: up to an opening parenthesis or comma, or an argument
RECURSIVE Start(_)
Start(d) == LET i == Pick(1..3) head == Pick({X("f" \o S(i)) \o Open("f", 0), X("new") \o T("s", " ") \o X("K" \o S(i)) \o Open("ctor", 0), X("K" \o S(i)) \o X("::") \o X("sm") \o Open("sm", 0),
                                              Get(i) \o X("->") \o X("m") \o Open("m", 0)})
               before == CASE Chance(3) -> <<>> [] Chance(2) -> Arg(1) \o Gap \o T(",", ",") [] OTHER -> Arg(1) \o T(",", ",") \o Gap \o Arg(1) \o T(",", ",")
           IN head \o before \o (IF d > 0 /\ Chance(3) THEN T("s", " ") \o Start(d - 1) ELSE IF before = <<>> \/ Chance(2) THEN T("s", Pick({"", " "})) ELSE T("s", " ") \o Lit)
Ended1 == Pick({"", "", "", "\n}", "\n$z = 1;\n", ";\n$z = 1;", "\n?>"})
\* a class with calls in it: of its own methods and those of its parent
Inside == LET i == Pick(1..3) IN
  X("class Q") \o X(" extends K" \o S(i) \o " {\n") \o (IF Chance(2) THEN X("public $p = ") \o Call(1) \o X(";\n") ELSE <<>>) \o (IF Chance(3) THEN X("const P = ") \o Call(0) \o X(";\n") ELSE <<>>)
  \o X("public function w() {\n") \o X("$this") \o Gap \o X("->") \o X("m") \o ArgsOf("m", i, 1) \o X(";\n") \o X(Pick({"self", "static", "parent"})) \o X("::") \o X("sm") \o ArgsOf("sm", i, 1) \o X(";\n")
  \o X("parent::__construct") \o ArgsOf("ctor", i, 1) \o X(";\nreturn new ") \o X(Pick({"self", "static", "parent"})) \o ArgsOf("ctor", i, 1) \o X(";\n}\n}\n")
Piece == IF Chance(4) THEN Inside ELSE LET c == Call(Pick(0..2)) IN
  CASE Chance(3) -> X("$y = ") \o c \o X(";\n") [] Chance(3) -> X("if (") \o c \o X(") {\n") \o Call(1) \o X(";\n}\n") [] Chance(3) -> X("echo ") \o c \o X(" . ") \o Call(1) \o X(";\n")
    [] Chance(3) -> X("function g") \o X("() {\n  return ") \o c \o X(";\n}\n") [] OTHER -> c \o X(";\n")
Distinct(q, i) == IF q # <<>> /\ q[1].t \in {"function g", "class Q"} THEN [q EXCEPT ![1].t = @ \o S(i)] ELSE q
NewDoc == LET k == Pick(1..4) IN
  [ns |-> Chance(3), eol |-> Pick({"lf", "crlf", "cr"}), ps |-> [i \in 1..k |-> TLCEval(Piece)], last |-> IF Chance(2) THEN TLCEval(Start(1)) ELSE <<>>, in |-> Chance(3)]
ChangedDoc(d) == CASE Chance(5) -> NewDoc
  [] Chance(2) -> LET i == Pick(DOMAIN d.ps) p == TLCEval(Piece) IN [d EXCEPT !.ps[i] = p]
  [] OTHER -> [d EXCEPT !.last = IF Chance(4) THEN <<>> ELSE TLCEval(Start(1))]
RECURSIVE Join(_, _)
Join(ps, i) == IF i > Len(ps) THEN <<>> ELSE Distinct(ps[i], i) \o Join(ps, i + 1)
Head0(d) == X("<?php\n") \o (IF d.ns THEN X("namespace N;\nuse K1, K2, K3;\n") ELSE <<>>)
Tokens(d) == Head0(d) \o Join(d.ps, 1) \o (IF d.in /\ d.last # <<>> THEN X("if (1) {\n  ") ELSE <<>>) \o d.last
\* which callee: the last name before its parenthesis
Num(t) == CASE t \in {"f1", "K1", "k1"} -> 1 [] t \in {"f2", "K2", "k2"} -> 2 [] t \in {"f3", "K3", "k3"} -> 3 [] OTHER -> 4
Names == {"f1", "f2", "f3", "f4", "K1", "K2", "K3", "k1", "k2", "k3"}
\* (new K1(...))->m( : the name is before the parenthesis of the first call
RECURSIVE NameBefore(_, _, _)
NameBefore(ts, i, depth) ==
  IF depth = 0 /\ ts[i].t \in Names THEN Num(ts[i].t)
  ELSE NameBefore(ts, i - 1, CASE ts[i].w = ")" -> depth + 1 [] ts[i].w = "(" -> depth - 1 [] OTHER -> depth)
Shown(l, d) ==
  LET ts == TLCEval(Tokens(d))
      ws == TLCEval([i \in DOMAIN ts |-> ts[i].w])
      sts == TLCEval(AllStacks(ws))
      calls == {i \in DOMAIN ts : ws[i] = "("}
      callee == TLCEval([i \in calls |-> Callee(l, IF ts[i].f.i > 0 THEN ts[i].f ELSE [ts[i].f EXCEPT !.i = NameBefore(ts, i - 1, 0)])])
      asks == {i \in DOMAIN ts : sts[i] # <<>> /\ Top(sts[i]).w = "("}
      args == Arguments(ws, sts)
      hinted == {a \in args : callee[a.at] # None /\ a.k < Len(callee[a.at])}
  IN [ts |-> [i \in DOMAIN ts |-> [w |-> ts[i].w, t |-> ts[i].t]], eol |-> d.eol, open |-> d.last # <<>>, tail |-> Ended1,
      asks |-> {[i |-> i, sig |-> callee[Top(sts[i]).at], k |-> Top(sts[i]).k] : i \in asks},
      hints |-> {[from |-> a.from, to |-> a.to, n |-> callee[a.at][a.k + 1].n] : a \in hinted}]
GInit == n = 0 /\ lib = <<>> /\ doc = <<>> /\ done = <<>>
Emit(what) == done' = Append(done, [what |-> what, lib |-> lib'] @@ Shown(lib', doc'))
GNext == \/ n = 0 /\ n' = 1 /\ (\E l \in {NewLib} : lib' = l) /\ (\E d \in {NewDoc} : doc' = d) /\ Emit("open")
         \/ n > 0 /\ n < MaxSteps /\ n' = n + 1 /\ \/ (\E l \in {ChangedLib(lib)} : lib' = l) /\ UNCHANGED doc /\ Emit("lib")
                                                   \/ (\E d \in {ChangedDoc(doc)} : doc' = d) /\ UNCHANGED lib /\ Emit("doc")
         \/ n = MaxSteps /\ n' = n + 1 /\ PrintT("@@" \o ToJson(done)) /\ UNCHANGED <<lib, doc, done>>
GSpec == GInit /\ [][GNext]_vars
=============================================================================
