------------------------------ MODULE Search ------------------------------
(* Searches with a limit. Words of the keyword are looked up one after another in an index of words
   of names; what is found is checked (a symbol may be gone or outside of the scope) and counted. *)
EXTENDS Naturals, Sequences, FiniteSets
\* what an answer to a search may be: found, a sequence; complete, its mark; all, everything which matches
Ran(s) == {s[i] : i \in DOMAIN s}
Right(found, complete, all, limit) ==
  /\ Ran(found) \subseteq all /\ Cardinality(Ran(found)) = Len(found)
  /\ limit > 0 => Len(found) <= limit
  /\ complete => Ran(found) = all
\* a list of several kinds: one mark for all
RightList(founds, complete, alls, limit) ==
  /\ \A k \in DOMAIN founds : Right(founds[k], FALSE, alls[k], limit)
  /\ complete => \A k \in DOMAIN founds : Ran(founds[k]) = alls[k]
\* groups of symbols which are named alike. pre: the name begins with the keyword; word: a word of it does
Required(g, q) == g.n > 0 /\ (q.kw = "stem" => g.how \in {"pre", "word", "snake"}) /\ (q.scope = <<"*">> \/ g.ns = q.scope)
Covers(cx, fq) == CASE cx \in {"new", "ext"} -> {"class"} [] cx \in {"impl", "iext"} -> {"iface"} [] cx = "trait" -> {"trait"}
  [] cx \in {"param", "static", "inst", "catch"} -> {"class", "iface"} \cup (IF fq THEN {"ns"} ELSE {})
  [] cx = "expr" -> {"class", "iface", "const", "define", "func"} \cup (IF fq THEN {"ns"} ELSE {})
  [] cx = "member" -> {"method", "prop"} [] cx = "ws" -> {"class", "iface", "trait", "const", "define", "func", "method", "prop", "cconst", "smethod"}
  [] cx = "scoped" -> {"cconst", "smethod"}
===========================================================================
