----------------------------- MODULE IndexGen -----------------------------
(* Histories of a workspace: files on disk, open documents, and the index. After every action
   the index holds, for every file, the text of the open document, or else the file on disk.
   Each step carries all declarations and uses of the index and the answers to a few searches. *)
EXTENDS Php, Integers, Json
CONSTANTS MaxSteps,       \* actions of a behaviour
          Profile         \* which actions: "edit", "delete", "restart", "crash"
VARIABLES disk, open, tr, n
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == Pick(1..k) = 1
None == [secs |-> <<>>, none |-> TRUE]
Present(f) == "none" \notin DOMAIN f

\* paths: sequences of their parts; folders are prefixes of one another
Paths == {<<"a.php">>, <<"a.php.b.php">>, <<"s", "a.php">>, <<"s", "t", "b.php">>, <<"sa", "a.php">>, <<"s.php">>}
Folders == {<<"s">>, <<"s", "t">>, <<"sa">>}
Under(f) == {p \in Paths : Len(p) > Len(f) /\ SubSeq(p, 1, Len(f)) = f}

\* ---- random files
Opt(S, k) == IF Chance(k) THEN <<Pick(S)>> ELSE <<>>
ARef(names) == LET nm == Pick(names) IN IF Chance(2) THEN [fq |-> TRUE, ns |-> Pick(Namespaces), n |-> nm.s] ELSE [fq |-> FALSE, ns |-> <<>>, n |-> nm.s]
ATypeRef == ARef(TypeNames)
RefSeq(k) == [i \in 1..Pick(0..k) |-> ATypeRef]
OptRef(k) == IF Chance(k) THEN <<ATypeRef>> ELSE <<>>
AStmt == LET u == Pick({"call", "call", "new", "inst", "catch", "scall", "sprop", "cconst", "mcall", "prop"}) IN
  [u |-> u, r |-> IF u = "call" THEN ARef(FuncNames) ELSE ATypeRef,
   m |-> Pick(IF u = "cconst" THEN CConstNames ELSE IF u \in {"sprop", "prop"} THEN PropNames ELSE MethodNames).s]
Body(k) == [i \in 1..Pick(0..k) |-> AStmt]
Params == [i \in 1..Pick({0, 0, 1, 2}) |-> [n |-> IF i = 1 THEN "x" ELSE "y", t |-> OptRef(2)]]
AVis == Pick({"public", "protected", "private"})
AMethod(owner) == LET abs == owner = "class" /\ Chance(6) IN
                  [k |-> "method", name |-> Pick(MethodNames), vis |-> IF owner = "interface" THEN "public" ELSE AVis,
                   static |-> Chance(3), abs |-> abs, params |-> Params, ret |-> OptRef(4),
                   body |-> IF abs \/ owner = "interface" THEN <<>> ELSE Body(2)]
AProp == [k |-> "prop", name |-> Pick(PropNames), vis |-> AVis, static |-> Chance(3), t |-> OptRef(3)]
ACConst == [k |-> "cconst", name |-> Pick(CConstNames), vis |-> AVis, v |-> Pick(1..3)]
AUse == [k |-> "use", t |-> ATypeRef, name |-> NoName]
AMember(owner) == CASE owner = "class" -> (CASE Pick(1..8) <= 3 -> AMethod(owner) [] Chance(2) -> AProp [] Chance(3) -> AUse [] OTHER -> ACConst)
                    [] owner = "interface" -> (IF Chance(3) THEN [ACConst EXCEPT !.vis = "public"] ELSE AMethod(owner))
                    [] owner = "trait" -> (IF Chance(2) THEN AMethod(owner) ELSE AProp)
RECURSIVE Members(_, _, _)
Members(owner, k, ms) == IF k = 0 THEN ms ELSE
  LET m == AMember(owner) IN
  Members(owner, k - 1, IF m.k # "use" /\ \E i \in DOMAIN ms : ms[i].k = m.k /\ ms[i].name.l = m.name.l THEN ms ELSE Append(ms, m))
\* uses of traits are written first
UsesFirst(ms) == SelectSeq(ms, LAMBDA m : m.k = "use") \o SelectSeq(ms, LAMBDA m : m.k # "use")
AnItem ==
  LET c == Pick(1..20) IN
  CASE c <= 6 -> [k |-> "class", name |-> Pick(TypeNames), mod |-> Pick({"", "", "abstract", "final"}), ext |-> OptRef(3), impl |-> RefSeq(2),
                  members |-> UsesFirst(Members("class", Pick(0..4), <<>>))]
    [] c <= 8 -> [k |-> "interface", name |-> Pick(TypeNames), ext |-> RefSeq(2), members |-> Members("interface", Pick(0..2), <<>>)]
    [] c <= 10 -> [k |-> "trait", name |-> Pick(TypeNames), members |-> Members("trait", Pick(0..3), <<>>)]
    [] c <= 14 -> [k |-> "function", name |-> Pick(FuncNames), params |-> Params, ret |-> OptRef(4), body |-> Body(3)]
    [] c <= 15 -> [k |-> "const", name |-> Pick(ConstNames), v |-> Pick(1..3)]
    [] c <= 16 -> [k |-> "define", name |-> Pick(ConstNames), v |-> Pick(1..3)]
    [] c <= 17 -> [k |-> "gvar", n |-> Pick(GVarNames), name |-> NoName, t |-> <<ATypeRef>>]
    [] OTHER -> [k |-> "stmts", name |-> NoName, body |-> Body(4)]
\* a file declares no name twice
ClassLike == {"class", "interface", "trait"}
Clash(a, b) == (a.k = b.k \/ {a.k, b.k} \subseteq ClassLike) /\ a.k # "stmts" /\ IF a.k = "gvar" THEN a.n = b.n ELSE a.name.l = b.name.l
RECURSIVE Items(_, _, _)
Items(k, done, its) == IF k = 0 THEN its ELSE
  LET it == AnItem IN
  Items(k - 1, done, IF \E i \in DOMAIN its : Clash(it, its[i]) THEN its
                     ELSE IF it.k \in {"define", "gvar"} /\ \E d \in done : Clash(it, d) THEN its ELSE Append(its, it))
Sections(k, nss) ==
  LET i1 == Items(Pick(0..k), {}, <<>>)
      a == [ns |-> Pick(nss), items |-> i1]
  IN IF Chance(5) THEN LET b == [ns |-> Pick(nss \ {a.ns}), items |-> Items(Pick(1..2), Range1(i1), <<>>)] IN <<a, b>>
     ELSE <<a>>
\* eol, pad: layout only; one section may be written unbraced
AFile == [secs |-> Sections(4, Namespaces), eol |-> Pick({"lf", "lf", "crlf", "cr"}), pad |-> Pick(0..3), brace |-> Chance(3)]
\* a new version: another file, the same with an item more or less, other layout, or empty
DropOne(s) == IF s = <<>> THEN s ELSE LET i == Pick(1..Len(s)) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Version(f) == LET c == Pick(1..6) IN
  IF ~Present(f) \/ c <= 2 THEN AFile
  ELSE IF c = 3 THEN [f EXCEPT !.secs[1].items = DropOne(f.secs[1].items)]
  ELSE IF c = 4 THEN [f EXCEPT !.pad = Pick(0..3)]
  ELSE IF c = 5 THEN [f EXCEPT !.secs = <<[ns |-> f.secs[1].ns, items |-> <<>>]>>]
  ELSE [f EXCEPT !.secs = <<[ns |-> Pick(Namespaces), items |-> f.secs[1].items]>>]
\* contents also move between files
Content(p) == IF Chance(5) THEN LET q == Pick(Paths) IN IF Present(disk[q]) THEN disk[q] ELSE Version(disk[p])
              ELSE Version(IF Present(open[p]) THEN open[p] ELSE disk[p])

\* ---- the observation
Index(d, o) == [p \in Paths |-> IF Present(o[p]) THEN o[p] ELSE d[p]]
AllDecls(ix) == UNION {{[p |-> p, d |-> x] : x \in Decls(ix[p])} : p \in {p \in Paths : Present(ix[p])}}
AllUses(ix) == UNION {{[p |-> p, u |-> x] : x \in Uses(ix[p])} : p \in {p \in Paths : Present(ix[p])}}
Searched == {"class", "interface", "trait", "function", "const", "define", "method", "prop", "cconst"}
Members3 == {"method", "prop", "cconst"}
\* members are searched store-wide, or within a class
AQuery(ds) == LET like == {x \in ds : x.d.kind # "gvar"}
                  one == IF like # {} /\ ~Chance(4) THEN {Pick(like)} ELSE {}
                  kind == IF one = {} THEN Pick(Searched) ELSE (CHOOSE x \in one : TRUE).d.kind
                  kws == {k \in Keywords : \E x \in one : Matches(x.d.name, k)}
                  kw == IF kws = {} THEN Pick(Keywords) ELSE Pick(kws)
                  scope == IF kind \in Members3
                           THEN (IF Chance(2) THEN <<>> ELSE IF one # {} THEN <<(CHOOSE x \in one : TRUE).d.key[1]>> ELSE <<Fqn(Pick(Namespaces), Pick(TypeNames).s)>>)
                           ELSE IF ~Chance(3) THEN <<>> ELSE IF one # {} THEN <<(CHOOSE x \in one : TRUE).d.ns>> ELSE <<Pick(Namespaces)>>
                  hits == {x \in ds : x.d.kind = kind /\ Matches(x.d.name, kw)
                             /\ IF kind \in Members3 THEN scope = <<>> \/ x.d.key[1] = scope[1] ELSE InScope(kind, x.d.ns, scope)}
              IN [kind |-> kind, kw |-> kw.s, scope |-> scope, limit |-> IF Chance(2) THEN 0 ELSE Pick(1..4),
                  hits |-> {[p |-> x.p, at |-> x.d.at] : x \in hits}]
\* namespaces: the part after the scope starts with the keyword
NsQuery(ix) == LET nss == UNION {NamespacesOf(ix[p]) : p \in {p \in Paths : Present(ix[p])}}
                   scope == Pick({<<>>, <<>>, <<"N">>, <<"Na">>})
                   kw == Pick({"n", "N", "na", "s", "Sub", "x"})
                   low == [n |-> "n", N |-> "n", na |-> "na", s |-> "s", Sub |-> "sub", x |-> "x"]
               IN [scope |-> scope, kw |-> kw,
                   hits |-> {NsString(ns) : ns \in {ns \in nss : Len(ns) > Len(scope) /\ IsBelow(ns, scope)
                                                       /\ \E w \in PartWords[ns[Len(scope) + 1]] : StartsWith(w, low[kw])}}]
Obs(d, o) == LET ix == Index(d, o)
                 ds == AllDecls(ix)
             IN [decls |-> {[p |-> x.p, kind |-> x.d.kind, key |-> x.d.key, at |-> x.d.at, attr |-> x.d.attr] : x \in ds},
                 uses |-> {[p |-> x.p, ref |-> x.u.ref, at |-> x.u.at, w |-> x.u.w] : x \in AllUses(ix)},
                 queries |-> [i \in 1..6 |-> AQuery(ds)], ns |-> [i \in 1..2 |-> NsQuery(ix)]]

\* ---- actions: a record, and the state after
Act(op, p, f, x) == [op |-> op, p |-> p, f |-> f, x |-> x]
Closed == [p \in Paths |-> None]
\* the process may die while it stores what the action changes: at the given write to its
\* databases, of which only half may get written; so may those that start after it
Deaths == [when |-> Pick(1..4), half |-> Chance(3), again |-> [i \in 1..Pick({0, 0, 1, 2}) |-> Pick(1..20)]]
Step(a, d, o) == disk' = d /\ IF Profile = "crash" /\ Chance(2)
                 THEN open' = Closed /\ tr' = Append(tr, [a |-> a, crash |-> <<Deaths>>, o |-> Obs(d, Closed)])
                 ELSE open' = o /\ tr' = Append(tr, [a |-> a, crash |-> <<>>, o |-> Obs(d, o)])
OnDisk == {p \in Paths : Present(disk[p])}
Opened == {p \in Paths : Present(open[p])}
Write == \E p \in {Pick(Paths)} : \E f \in {Content(p)} : Step(Act("write", p, f, ""), [disk EXCEPT ![p] = f], open)
Again == OnDisk # {} /\ \E p \in {Pick(OnDisk)} : Step(Act("again", p, None, ""), disk, open)
Open == Opened # Paths /\ \E p \in {Pick(Paths \ Opened)} : \E f \in {IF Present(disk[p]) /\ Chance(2) THEN disk[p] ELSE Content(p)} :
           Step(Act("open", p, f, ""), disk, [open EXCEPT ![p] = f])
Change == Opened # {} /\ \E p \in {Pick(Opened)} : \E f \in {Content(p)} :
           Step(Act("change", p, f, Pick({"full", "range", "split"})), disk, [open EXCEPT ![p] = f])
Close == Opened # {} /\ \E p \in {Pick(Opened)} : Step(Act("close", p, None, ""), disk, [open EXCEPT ![p] = None])
\* saving: what is on disk becomes the open text
Save == Opened # {} /\ \E p \in {Pick(Opened)} : Step(Act("write", p, open[p], ""), [disk EXCEPT ![p] = open[p]], open)
Delete == OnDisk # {} /\ \E p \in {Pick(OnDisk)} : Step(Act("delete", p, None, ""), [disk EXCEPT ![p] = None], open)
DeleteFolder == \E f \in {Pick(Folders)} :
           Step(Act("rmdir", f, None, ""), [p \in Paths |-> IF p \in Under(f) THEN None ELSE disk[p]], open)
\* the server is down for a while; files change meanwhile
RECURSIVE Offline(_, _)
Offline(k, d) == IF k = 0 THEN <<d>> ELSE
  LET p == Pick(Paths)
      f == IF Chance(3) THEN None ELSE IF Chance(3) THEN LET q == Pick(Paths) IN d[q] ELSE Version(d[p])
  IN <<d>> \o Offline(k - 1, [d EXCEPT ![p] = f])
Restart == \E ds \in {Offline(Pick(0..4), disk)} :
  LET d == ds[Len(ds)] IN
  Step([op |-> "restart", p |-> <<>>, f |-> None, x |-> "",
        disk |-> {[p |-> p, f |-> d[p]] : p \in {p \in Paths : d[p] # disk[p]}}], d, [p \in Paths |-> None])
Weights == CASE Profile = "edit" -> <<3, 1, 3, 6, 3, 2, 1, 1, 0>>
             [] Profile = "delete" -> <<5, 1, 2, 2, 2, 1, 4, 4, 0>>
             [] Profile = "crash" -> <<4, 0, 2, 4, 2, 1, 2, 2, 0>>
             [] Profile = "restart" -> <<4, 1, 1, 1, 1, 1, 1, 1, 3>>
             [] Profile = "files" -> <<6, 2, 0, 0, 0, 0, 3, 2, 2>>
RECURSIVE Upto(_, _)
Upto(w, i) == IF i = 0 THEN 0 ELSE w[i] + Upto(w, i - 1)
GInit == disk = [p \in Paths |-> None] /\ open = [p \in Paths |-> None] /\ tr = <<>> /\ n = 0
GNext == \/ n >= 0 /\ n < MaxSteps /\ n' = n + 1
            /\ \E c \in {Pick(1..Upto(Weights, Len(Weights)))} : LET k == CHOOSE i \in 1..Len(Weights) : Upto(Weights, i - 1) < c /\ c <= Upto(Weights, i) IN
                 CASE k = 1 -> Write
                   [] k = 2 -> IF OnDisk = {} THEN Write ELSE Again
                   [] k = 3 -> IF Opened = Paths THEN Write ELSE Open
                   [] k = 4 -> IF Opened = {} THEN Open ELSE Change
                   [] k = 5 -> IF Opened = {} THEN Write ELSE Close
                   [] k = 6 -> IF Opened = {} THEN Write ELSE Save
                   [] k = 7 -> IF OnDisk = {} THEN Write ELSE Delete
                   [] k = 8 -> DeleteFolder
                   [] k = 9 -> Restart
         \/ n = MaxSteps /\ PrintT("@@" \o ToJson(tr)) /\ n' = -1 /\ UNCHANGED <<disk, open, tr>>
GSpec == GInit /\ [][GNext]_<<disk, open, tr, n>>
=============================================================================
