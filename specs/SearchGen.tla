----------------------------- MODULE SearchGen -----------------------------
(* Groups of symbols of every kind, about as many as the limit of the server, and completions among them. *)
EXTENDS Search, TLC, Json
CONSTANT Limit
VARIABLE n
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..k) = 1
Kinds == {"class", "iface", "trait", "func", "const", "define", "method", "prop", "cconst", "smethod", "ns"}
Inside == {"method", "prop", "cconst", "smethod"}
Size == CASE Chance(4) -> Pick({Limit - 1, Limit, Limit + 1}) [] Chance(3) -> Pick({Limit \div 2, Limit \div 2 + 1, Limit + 300}) [] OTHER -> Pick(0..4)
Group(k, j) == [id |-> j, k |-> k, n |-> Size, file |-> Pick(1..2), ns |-> IF k \in Inside THEN <<>> ELSE Pick({<<>>, <<>>, <<"A">>, <<"A", "B">>}),
                how |-> Pick({"pre", "pre", "word", "snake", "in", "none"}), dup |-> k \notin Inside \cup {"ns"} /\ Chance(5)]
RECURSIVE Groups(_, _)
Groups(j, ks) == IF j = 0 THEN <<>> ELSE Append(Groups(j - 1, ks), Group(Pick(ks), j))
Ctx == {"ws", "new", "ext", "impl", "iext", "trait", "param", "static", "inst", "catch", "expr", "member", "scoped"}
Query(gs, cx) ==
  LET member == cx \in {"member", "scoped", "ws"}
      scope == IF member \/ Chance(2) THEN <<"*">> ELSE Pick({<<>>, <<"A">>, <<"A", "B">>})
      q == [cx |-> cx, kw |-> IF (scope # <<"*">> \/ member) /\ cx # "ws" /\ Chance(3) THEN "" ELSE "stem", up |-> Pick(1..3), scope |-> scope]
      cov == Covers(cx, scope # <<"*">>)
  IN [q |-> q, req |-> {gs[i].id : i \in {i \in DOMAIN gs : gs[i].k \in cov /\ Required(gs[i], q)}}, cov |-> cov]
RECURSIVE Queries(_, _, _)
Queries(i, gs, S) == IF i = 0 THEN <<>> ELSE <<Query(gs, Pick(S))>> \o Queries(i - 1, gs, S)
\* a change of a file changes how many there are
Changed(gs) == LET f == Pick(1..2) IN [i \in DOMAIN gs |-> IF gs[i].file = f /\ Chance(2) THEN [gs[i] EXCEPT !.n = Size] ELSE gs[i]]
Steps(gs, ks, S) == <<[groups |-> gs, queries |-> Queries(6, gs, S)]>>
Themes == {[ks |-> {"class", "iface", "trait", "ns"}, cx |-> Ctx \ {"member", "scoped"}],
           [ks |-> {"class", "func", "const", "define", "iface", "ns"}, cx |-> {"expr", "ws"}],
           [ks |-> {"class", "iface"}, cx |-> {"new", "ext", "impl", "iext", "param", "static", "inst", "catch", "expr"}],
           [ks |-> Inside, cx |-> {"member", "scoped", "ws"}]}
Scenario(j) == LET t == Pick(Themes) gs == TLCEval(Groups(Pick(3..5), t.ks)) h == TLCEval(Changed(gs)) IN Steps(gs, t.ks, t.cx) \o Steps(h, t.ks, t.cx)
GInit == n = 0
GNext == n = 0 /\ n' = 1 /\ \E s \in {Scenario(0)} : PrintT("@@" \o ToJson(s))
GSpec == GInit /\ [][GNext]_n
===========================================================================
