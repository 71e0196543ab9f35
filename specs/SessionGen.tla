---------------------------- MODULE SessionGen ----------------------------
(* Sessions of a client with workspace folders: some folders are open, every path belongs to the
   innermost open folder containing it, and a folder's index holds exactly its own paths. The
   client reports changes of files, opens and edits documents, adds and removes folders; it may
   go on without waiting (sync = FALSE). Once the server has dealt with everything, the index
   holds what Obs says, however the reports were interleaved. *)
EXTENDS IndexGen
VARIABLES fs        \* the open folders
Roots == {<<>>, <<"s">>, <<"s", "t">>, <<"sa">>}
IsUnder(f, p) == Len(f) <= Len(p) /\ SubSeq(p, 1, Len(f)) = f
Around(p, g) == {f \in g : IsUnder(f, p)}
Owner(p, g) == CHOOSE f \in Around(p, g) : \A h \in Around(p, g) : Len(h) <= Len(f)
Owned(g) == {p \in Paths : Around(p, g) # {}}
Own(g) == {[p |-> p, f |-> Owner(p, g)] : p \in Owned(g)}
Only(g, c) == [p \in Paths |-> IF p \in Owned(g) THEN c[p] ELSE None]

\* ---- steps
Async == Profile = "async"
Sync == IF Async \/ Profile = "churn" THEN Chance(5) ELSE ~Chance(3)
Quiet == [op |-> "none", p |-> <<>>, f |-> None, x |-> ""]
Blank == [disk |-> {}, ev |-> <<>>, msg |-> Quiet, addf |-> {}, remf |-> {}, restart |-> FALSE, sync |-> FALSE, own |-> {}, fs |-> {}]
SStep(s, d, o, g) == disk' = d /\ open' = o /\ fs' = g
                     /\ tr' = Append(tr, [s EXCEPT !.sync = Sync, !.own = Own(g), !.fs = g])
Created == 1
Changed == 2
Deleted == 3
Ev(p, t) == [p |-> p, t |-> t]
EvOf(p, d) == Ev(p, IF ~Present(d[p]) THEN Deleted ELSE IF Present(disk[p]) THEN Changed ELSE Created)
Diff(d) == {[p |-> p, f |-> d[p]] : p \in {p \in Paths : d[p] # disk[p]}}
\* reports in any order
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x})
\* clients also report what the server has nothing to do with, or what it has been told already
NoiseEvs == {Ev(<<"gone.php">>, Deleted), Ev(<<"gone.php">>, Created), Ev(<<"note.txt">>, Created), Ev(<<"dir.php">>, Created),
             Ev(<<"dir.php">>, Deleted), Ev(<<"none">>, Deleted), Ev(<<"%">>, Created), Ev(<<"%">>, Deleted), Ev(<<"%">>, Changed)}
WithNoise(evs) == IF ~Chance(4) THEN evs
                  ELSE LET e == IF evs # <<>> /\ Chance(2) THEN Pick(Range1(evs)) ELSE Pick(NoiseEvs)
                       IN IF Chance(2) THEN <<e>> \o evs ELSE evs \o <<e>>
Report1(d, evs) == SStep([Blank EXCEPT !.disk = Diff(d), !.ev = WithNoise(evs)], d, open, fs)
ReportEach(d) == Report1(d, Shuffle({EvOf(p, d) : p \in {p \in Paths : d[p] # disk[p]}}))
\* one file is written, or several at once
SWrite == \E p \in {Pick(Paths)} : \E f \in {Content(p)} : ReportEach([disk EXCEPT ![p] = f])
RECURSIVE Rewrite(_, _)
Rewrite(k, d) == IF k = 0 THEN <<d>> ELSE
  LET p == Pick(Paths)
      f == IF Present(d[p]) /\ Chance(3) THEN None ELSE IF Chance(4) THEN LET q == Pick(Paths) IN d[q] ELSE Version(d[p])
  IN <<d>> \o Rewrite(k - 1, [d EXCEPT ![p] = f])
SMany == \E ds \in {Rewrite(Pick(2..5), disk)} : ReportEach(ds[Len(ds)])
\* a file is renamed, over another perhaps
SRename == OnDisk # {} /\ \E p \in {Pick(OnDisk)} : \E q \in {Pick(Paths \ {p})} :
             ReportEach([disk EXCEPT ![q] = disk[p], ![p] = None])
SDelete == OnDisk # {} /\ \E p \in {Pick(OnDisk)} : ReportEach([disk EXCEPT ![p] = None])
\* a folder appears with its files, and only the folder is reported
SMkdir == \E x \in {Pick(Folders)} : \E d \in {[p \in Paths |-> IF p \in Under(x) /\ (Chance(2) \/ Cardinality(Under(x)) = 1) THEN Content(p) ELSE disk[p]]} :
            Report1(d, <<Ev(x, Created)>>)
SRmdir == \E x \in {Pick(Folders)} : \E d \in {[p \in Paths |-> IF p \in Under(x) THEN None ELSE disk[p]]} :
            \E k \in {Pick(1..3)} : IF k = 1 /\ Diff(d) # {} THEN ReportEach(d)
                                    ELSE Report1(d, <<Ev(x, Deleted)>> \o (IF k = 2 THEN Shuffle({EvOf(p, d) : p \in {p \in Paths : d[p] # disk[p]}}) ELSE <<>>))
\* a folder is renamed: all its files move
SMvdir == \E s \in {Pick({"s", "sa"})} : \E d \in {[p \in Paths |->
             IF p = <<"sa", "a.php">> THEN (IF s = "s" THEN disk[<<"s", "a.php">>] ELSE None)
             ELSE IF p = <<"s", "a.php">> THEN (IF s = "sa" THEN disk[<<"sa", "a.php">>] ELSE None)
             ELSE IF p = <<"s", "t", "b.php">> THEN None ELSE disk[p]]} :
             Report1(d, <<Ev(<<IF s = "s" THEN "sa" ELSE "s">>, Deleted), Ev(<<s>>, Deleted), Ev(<<IF s = "s" THEN "sa" ELSE "s">>, Created)>>)
SAgain == OnDisk # {} /\ \E p \in {Pick(OnDisk)} : Report1(disk, <<Ev(p, Pick({Created, Changed}))>>)
\* only documents in a folder of the workspace are opened
Openable == Owned(fs) \ Opened
Msg(op, p, f, x, o) == SStep([Blank EXCEPT !.msg = [op |-> op, p |-> p, f |-> f, x |-> x]], disk, o, fs)
SOpen == Openable # {} /\ \E p \in {Pick(Openable)} : \E f \in {IF Present(disk[p]) /\ Chance(2) THEN disk[p] ELSE Content(p)} :
           Msg("open", p, f, "", [open EXCEPT ![p] = f])
SChange == Opened # {} /\ \E p \in {Pick(Opened)} : \E f \in {Content(p)} :
           Msg("change", p, f, Pick({"full", "range", "split"}), [open EXCEPT ![p] = f])
SClose == Opened # {} /\ \E p \in {Pick(Opened)} : Msg("close", p, None, "", [open EXCEPT ![p] = None])
SSave == Opened # {} /\ \E p \in {Pick(Opened)} : ReportEach([disk EXCEPT ![p] = open[p]])
\* folders come and go; open documents stay in one
Folding(g) == /\ Opened \subseteq Owned(g)
              /\ SStep([Blank EXCEPT !.addf = g \ fs, !.remf = fs \ g], disk, open, g)
SFolders == \E x \in {Pick(Roots)} : \E y \in {IF Chance(3) THEN Pick(Roots) ELSE x} :
  LET flip(g, z) == IF z \in g THEN g \ {z} ELSE g \cup {z}
      g1 == flip(fs, x)
      g == IF y = x THEN g1 ELSE flip(g1, y)
  IN Folding(IF Opened \subseteq Owned(g) THEN g ELSE fs \cup {x, y})
\* added although open, removed although not
SFoldNoise == \E x \in {Pick(Roots)} : SStep([Blank EXCEPT !.addf = {x} \cap fs, !.remf = {x} \ fs], disk, open, fs)
\* a server is started with a folder at least
ARoots == {r \in Roots : Chance(2)} \cup {Pick(Roots)}
SRestart == \E ds \in {Rewrite(Pick(0..4), disk)} : \E g \in {IF Async THEN fs ELSE IF fs # {} /\ Chance(2) THEN fs ELSE ARoots} :
  LET d == ds[Len(ds)] IN
  SStep([Blank EXCEPT !.disk = Diff(d), !.restart = TRUE, !.addf = g], d, Closed, g)
SWeights == CASE Profile = "folders" -> <<4, 1, 2, 1, 1, 1, 1, 1, 3, 4, 2, 1, 8, 1, 1>>
              [] Profile = "churn" -> <<5, 1, 2, 4, 1, 2, 1, 1, 2, 2, 1, 1, 12, 0, 1>>
              [] Profile = "async" -> <<6, 4, 3, 3, 2, 3, 2, 2, 4, 6, 4, 3, 0, 0, 1>>
SInit == /\ disk = Closed /\ open = Closed /\ n = 0
         /\ fs = IF Profile = "async" THEN {<<>>} ELSE ARoots
         /\ tr = <<[Blank EXCEPT !.restart = TRUE, !.addf = fs, !.own = Own(fs), !.fs = fs]>>
SNext == \/ n >= 0 /\ n < MaxSteps /\ n' = n + 1
            /\ \E c \in {Pick(1..Upto(SWeights, Len(SWeights)))} : LET k == CHOOSE i \in 1..Len(SWeights) : Upto(SWeights, i - 1) < c /\ c <= Upto(SWeights, i) IN
                 CASE k = 1 -> SWrite
                   [] k = 2 -> SMany
                   [] k = 3 -> IF OnDisk = {} THEN SWrite ELSE SRename
                   [] k = 4 -> IF OnDisk = {} THEN SWrite ELSE SDelete
                   [] k = 5 -> SMkdir
                   [] k = 6 -> SRmdir
                   [] k = 7 -> SMvdir
                   [] k = 8 -> IF OnDisk = {} THEN SWrite ELSE SAgain
                   [] k = 9 -> IF Openable = {} THEN SWrite ELSE SOpen
                   [] k = 10 -> IF Opened = {} THEN SWrite ELSE SChange
                   [] k = 11 -> IF Opened = {} THEN SWrite ELSE SClose
                   [] k = 12 -> IF Opened = {} THEN SWrite ELSE SSave
                   [] k = 13 -> SFolders
                   [] k = 14 -> SFoldNoise
                   [] k = 15 -> SRestart
         \/ n = MaxSteps /\ PrintT("@@" \o ToJson([steps |-> tr, o |-> Obs(Only(fs, disk), Only(fs, open))])) /\ n' = -1 /\ UNCHANGED <<disk, open, tr, fs>>
SSpec == SInit /\ [][SNext]_<<disk, open, tr, n, fs>>
=============================================================================
