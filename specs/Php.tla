-------------------------------- MODULE Php --------------------------------
(* The part of PHP which the index knows: files made of sections (namespaces) holding
   declarations and uses. Defines, for a file, what it declares and what it uses, and what a
   keyword search finds among declarations. Words of names are given, not computed: a name is
   a record of its spelling s, its lower-case spelling l and the lower-case words w it is
   found by. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Nm(s, l, w) == [s |-> s, l |-> l, w |-> w \cup {l}]

\* ---- pools of names; they collide across kinds, and some are prefixes of others
TypeNames == {Nm("Foo", "foo", {}), Nm("FooBar", "foobar", {"bar"}), Nm("Bar", "bar", {}),
              Nm("foo_baz", "foo_baz", {"foo", "baz"}), Nm("HTTPReq", "httpreq", {"req"}),
              Nm("Foo2Bar", "foo2bar", {"2", "bar"}), Nm("_Baz", "_baz", {"baz"}),
              Nm("A_n~e_Top", "a_n~e_top", {"a", "n~e", "top"})}
FuncNames == {Nm("foo", "foo", {}), Nm("fooBar", "foobar", {"bar"}), Nm("foo_bar", "foo_bar", {"foo", "bar"}),
              Nm("req", "req", {}), Nm("_bar", "_bar", {"bar"}),
              Nm("do_x_foo", "do_x_foo", {"do", "x", "foo"})}
ConstNames == {Nm("FOO", "foo", {}), Nm("FOO_BAR", "foo_bar", {"foo", "bar"}), Nm("Bar", "bar", {})}
MethodNames == {Nm("run", "run", {}), Nm("runFoo", "runfoo", {"foo"}), Nm("foo", "foo", {}), Nm("__get", "__get", {"get"})}
PropNames == {Nm("foo", "foo", {}), Nm("fooBar", "foobar", {"bar"}), Nm("run", "run", {})}
CConstNames == {Nm("FOO", "foo", {}), Nm("MAX_BAR", "max_bar", {"max", "bar"})}
GVarNames == {"$g", "$gg"}
\* namespaces: their parts
Namespaces == {<<>>, <<"N">>, <<"Na">>, <<"N", "Sub">>}
PartWords == [N |-> {"n"}, Na |-> {"na"}, Sub |-> {"sub"}]
RECURSIVE NsString(_)
NsString(ns) == IF ns = <<>> THEN "" ELSE "\\" \o Head(ns) \o NsString(Tail(ns))
Fqn(ns, s) == NsString(ns) \o "\\" \o s

\* ---- references to names: written fully qualified, or alone
Target(ns, r) == Fqn(IF r.fq THEN r.ns ELSE ns, r.n)
\* ---- what a declaration looks like to the index
Range1(s) == {s[i] : i \in DOMAIN s}
Types(ns, rs) == [i \in DOMAIN rs |-> Target(ns, rs[i])]
ParamSig(ns, ps) == [i \in DOMAIN ps |-> "$" \o ps[i].n \o (IF ps[i].t = <<>> THEN "" ELSE ":" \o Target(ns, ps[i].t[1]))]
MembersOf(it) == IF it.k \in {"class", "interface", "trait"} THEN it.members ELSE <<>>
TraitsUsed(ns, it) == LET us == SelectSeq(it.members, LAMBDA m : m.k = "use") IN [i \in DOMAIN us |-> Target(ns, us[i].t)]
Attr(ns, it) ==
  CASE it.k = "class" -> <<it.mod>> \o <<"extends">> \o Types(ns, it.ext) \o <<"implements">> \o Types(ns, it.impl) \o <<"use">> \o TraitsUsed(ns, it)
    [] it.k = "interface" -> <<"extends">> \o Types(ns, it.ext)
    [] it.k = "trait" -> <<>>
    [] it.k = "function" -> ParamSig(ns, it.params)
    [] it.k \in {"const", "define"} -> <<ToString(it.v)>>
    [] it.k = "method" -> <<it.vis, IF it.static THEN "static" ELSE "", IF it.abs THEN "abstract" ELSE "">> \o ParamSig(ns, it.params)
    [] it.k = "prop" -> <<it.vis, IF it.static THEN "static" ELSE "">> \o Types(ns, it.t)
    [] it.k = "cconst" -> <<it.vis, ToString(it.v)>>
    [] it.k = "gvar" -> Types(ns, it.t)
Declared == {"class", "interface", "trait", "function", "const", "define"}
\* the key an item is looked up by: [kind, key] or, for members, [kind, owner, name]
Key(ns, it) == IF it.k = "gvar" THEN <<it.n>> ELSE IF it.k = "define" THEN <<Fqn(<<>>, it.name.s)>> ELSE <<Fqn(ns, it.name.s)>>
MemberKey(ns, owner, m) == <<Fqn(ns, owner.name.s), IF m.k = "method" THEN m.name.l ELSE IF m.k = "prop" THEN "$" \o m.name.s ELSE m.name.s>>
Decl(kind, key, at, attr, name, ns) == [kind |-> kind, key |-> key, at |-> at, attr |-> attr, name |-> name, ns |-> ns]
NoName == Nm("", "", {})
ItemDecls(ns, it, at) ==
  (IF it.k \in Declared
   THEN {Decl(it.k, Key(ns, it), at, Attr(ns, it), it.name, IF it.k = "define" THEN <<>> ELSE ns)}
   ELSE IF it.k = "gvar" /\ it.t # <<>> THEN {Decl("gvar", Key(ns, it), at, Attr(ns, it), NoName, ns)} ELSE {})
  \cup {Decl(MembersOf(it)[j].k, MemberKey(ns, it, MembersOf(it)[j]), Append(at, j), Attr(ns, MembersOf(it)[j]), MembersOf(it)[j].name, ns)
        : j \in {j \in DOMAIN MembersOf(it) : MembersOf(it)[j].k # "use"}}
\* a file: [secs |-> sequence of [ns, items]]
Decls(file) == UNION {UNION {ItemDecls(file.secs[s].ns, file.secs[s].items[i], <<s, i>>) : i \in DOMAIN file.secs[s].items} : s \in DOMAIN file.secs}
NamespacesOf(file) == {file.secs[s].ns : s \in DOMAIN file.secs} \ {<<>>}

\* ---- uses: [ref, at, w]: w tells which of the names written at `at` it is
Use(ref, at, w) == [ref |-> ref, at |-> at, w |-> w]
TypeUses(ns, rs, at, w) == {Use(Target(ns, rs[i]), at, <<w, i>>) : i \in DOMAIN rs}
ParamUses(ns, ps, at) == {Use(Target(ns, ps[i].t[1]), at, <<"param", i>>) : i \in {i \in DOMAIN ps : ps[i].t # <<>>}}
CallRefs(ns, r) == IF r.fq THEN {Target(ns, r) \o "()"} ELSE {Fqn(ns, r.n) \o "()", Fqn(<<>>, r.n) \o "()"}
StmtUses(ns, u, at, j) ==
  CASE u.u = "call" -> {Use(x, at, <<"stmt", j, "name">>) : x \in CallRefs(ns, u.r)}
    [] u.u \in {"new", "inst", "catch"} -> {Use(Target(ns, u.r), at, <<"stmt", j, "name">>)}
    [] u.u = "scall" -> {Use(Target(ns, u.r), at, <<"stmt", j, "name">>), Use("." \o u.m \o "()", at, <<"stmt", j, "member">>)}
    [] u.u = "sprop" -> {Use(Target(ns, u.r), at, <<"stmt", j, "name">>), Use(".$" \o u.m, at, <<"stmt", j, "member">>)}
    [] u.u = "cconst" -> {Use(Target(ns, u.r), at, <<"stmt", j, "name">>), Use("." \o u.m, at, <<"stmt", j, "member">>)}
    [] u.u = "mcall" -> {Use("." \o u.m \o "()", at, <<"stmt", j, "member">>)}
    [] u.u = "prop" -> {Use(".$" \o u.m, at, <<"stmt", j, "member">>)}
BodyUses(ns, b, at) == UNION {StmtUses(ns, b[j], at, j) : j \in DOMAIN b}
MemberUses(ns, m, at) ==
  CASE m.k = "method" -> {Use("." \o m.name.s \o "()", at, <<"decl", 1>>)} \cup ParamUses(ns, m.params, at) \cup TypeUses(ns, m.ret, at, "ret") \cup BodyUses(ns, m.body, at)
    [] m.k = "prop" -> {Use(".$" \o m.name.s, at, <<"decl", 1>>)} \cup TypeUses(ns, m.t, at, "doc")
    [] m.k = "cconst" -> {Use("." \o m.name.s, at, <<"decl", 1>>)}
    [] m.k = "use" -> {Use(Target(ns, m.t), at, <<"use", 1>>)}
ItemUses(ns, it, at) ==
  CASE it.k = "class" -> {Use(Fqn(ns, it.name.s), at, <<"decl", 1>>)} \cup TypeUses(ns, it.ext, at, "ext") \cup TypeUses(ns, it.impl, at, "impl")
                         \cup UNION {MemberUses(ns, it.members[j], Append(at, j)) : j \in DOMAIN it.members}
    [] it.k = "interface" -> {Use(Fqn(ns, it.name.s), at, <<"decl", 1>>)} \cup TypeUses(ns, it.ext, at, "ext")
                         \cup UNION {MemberUses(ns, it.members[j], Append(at, j)) : j \in DOMAIN it.members}
    [] it.k = "trait" -> {Use(Fqn(ns, it.name.s), at, <<"decl", 1>>)}
                         \cup UNION {MemberUses(ns, it.members[j], Append(at, j)) : j \in DOMAIN it.members}
    [] it.k = "function" -> {Use(Fqn(ns, it.name.s) \o "()", at, <<"decl", 1>>)} \cup ParamUses(ns, it.params, at) \cup TypeUses(ns, it.ret, at, "ret") \cup BodyUses(ns, it.body, at)
    [] it.k = "stmts" -> BodyUses(ns, it.body, at)
    [] it.k = "gvar" -> TypeUses(ns, it.t, at, "doc")
    [] it.k \in {"const", "define"} -> {}
Uses(file) == UNION {UNION {ItemUses(file.secs[s].ns, file.secs[s].items[i], <<s, i>>) : i \in DOMAIN file.secs[s].items} : s \in DOMAIN file.secs}

\* ---- searching
StartsWith(w, x) == Len(x) <= Len(w) /\ SubSeq(w, 1, Len(x)) = x
Matches(name, kw) == \E x \in kw.w : \E w \in name.w : StartsWith(w, x)
IsBelow(ns, scope) == Len(ns) >= Len(scope) /\ SubSeq(ns, 1, Len(scope)) = scope
\* scope: <<>> for none, <<ns>> for a namespace
InScope(kind, ns, scope) == scope = <<>> \/ IF kind = "class" THEN IsBelow(ns, scope[1]) ELSE ns = scope[1]
Keywords == {Nm("foo", "foo", {}), Nm("FOO", "foo", {}), Nm("Fo", "fo", {}), Nm("ba", "ba", {}), Nm("fooBa", "fooba", {"ba"}),
             Nm("foo_b", "foo_b", {"foo", "b"}), Nm("Req", "req", {}), Nm("httpr", "httpr", {}), Nm("2", "2", {}), Nm("zz", "zz", {}),
             Nm("_b", "_b", {"b"}), Nm("run", "run", {}), Nm("get", "get", {}), Nm("MAX", "max", {}), Nm("oo", "oo", {}), Nm("Bar", "bar", {}),
             Nm("N~e", "n~e", {}), Nm("x", "x", {}), Nm("a_n", "a_n", {"a", "n"})}
=============================================================================
