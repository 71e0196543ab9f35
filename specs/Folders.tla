------------------------------ MODULE Folders ------------------------------
(* The design of several workspace folders: each has a database of its own, which is kept when
   the folder is removed. Handlers of messages run one at a time; workers index documents in
   the folder they find to own them, look again afterwards, and move the document if that has
   changed; folders are indexed in the background after they are added. A text stands for all
   that is stored about a document. *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Folders,        \* names of folders
          Paths, In,      \* In[f]: the paths below folder f; folders are nested or disjoint
          Texts, Workers, MaxEnv, MaxFold,
          Told,            \* reading a file that is gone tells so; a client that provides the files just fails
          Sweep            \* what a removed folder's documents are compared again by the enclosing one
NoText == "none"
None == "none"
VARIABLES
  disk, open,      \* Paths -> Texts or NoText
  fs,              \* folders which are open, that is, which own documents
  db,              \* Folders -> Paths -> what its database holds
  alive,           \* folders whose database is open
  creates,         \* documents to be compared: a bag, as pairs <<p, who>>; who: the run waiting for it
  removes,         \* documents which might be gone
  work,            \* Workers -> [st, p, f, text, who, op]
  run,             \* Folders -> [st, todo, synced]: the indexing of a folder in the background
  hand,            \* the message being handled: [op, f, st, left]
  env, folds
vars == <<disk, open, fs, db, alive, creates, removes, work, run, hand, env, folds>>
Idle == [st |-> "idle", p |-> None, f |-> None, text |-> NoText, who |-> None, op |-> "create", old |-> FALSE]
NoRun == [st |-> "off", todo |-> {}, synced |-> {}]
NoMsg == [op |-> "none", f |-> None, st |-> 0, left |-> {}]
Around(p, g) == {f \in g : p \in In[f]}
OwnerOf(p, g) == IF Around(p, g) = {} THEN None
                 ELSE CHOOSE f \in Around(p, g) : \A h \in Around(p, g) : In[f] \subseteq In[h]
Enclosing(f, g) == LET A == {h \in g \ {f} : In[f] \subseteq In[h]} IN
                   IF A = {} THEN None ELSE CHOOSE h \in A : \A k \in A : In[h] \subseteq In[k]
Locked(f, p) == \E w \in Workers : work[w].st = "store" /\ ~work[w].old /\ work[w].f = f /\ work[w].p = p
Init ==
  /\ disk \in [Paths -> Texts \cup {NoText}] /\ open = [p \in Paths |-> NoText]
  /\ fs = {} /\ db = [f \in Folders |-> [p \in Paths |-> NoText]] /\ alive = {}
  /\ creates = {} /\ removes = {} /\ work = [w \in Workers |-> Idle]
  /\ run = [f \in Folders |-> NoRun] /\ hand = NoMsg /\ env = 0 /\ folds = 0

\* what a folder's database is to hold for a document, with its lock held
Content(p) == IF open[p] # NoText THEN open[p] ELSE disk[p]
Put(f, p, t) == db' = IF f \in alive THEN [db EXCEPT ![f][p] = t] ELSE db
\* a worker works on the database it has found, which may have been closed since
PutOld(x, t) == db' = IF x.f \in alive /\ ~x.old THEN [db EXCEPT ![x.f][x.p] = t] ELSE db

\* ---- workers
Take(w) == \E c \in creates :
  /\ work[w].st = "idle" /\ creates' = creates \ {c}
  /\ LET f == OwnerOf(c[1], fs) IN
     IF f = None THEN /\ run' = IF c[2] = None THEN run ELSE [run EXCEPT ![c[2]].todo = @ \ {c[1]}]
                      /\ UNCHANGED work
     ELSE work' = [work EXCEPT ![w] = [st |-> "found", p |-> c[1], f |-> f, text |-> NoText, who |-> c[2], op |-> "create", old |-> FALSE]] /\ UNCHANGED run
  /\ UNCHANGED <<disk, open, fs, db, alive, removes, hand, env, folds>>
\* the lock is taken, the document has been seen, and its file is read
Read(w) == LET x == work[w] IN
  /\ x.st = "found" /\ (x.old \/ ~Locked(x.f, x.p))
  \* a file that cannot be read is left as it is, and to the folder's own indexing
  /\ LET fails == ~Told /\ Content(x.p) = NoText IN
     /\ run' = IF x.old \/ fails THEN run ELSE [run EXCEPT ![x.f].synced = @ \ {x.p}]
     /\ work' = [work EXCEPT ![w].st = IF fails THEN "again" ELSE "store", ![w].text = Content(x.p)]
  /\ UNCHANGED <<disk, open, fs, db, alive, creates, removes, hand, env, folds>>
Write(w) == LET x == work[w] IN
  /\ x.st = "store" /\ x.op = "create" /\ PutOld(x, x.text)
  /\ work' = [work EXCEPT ![w].st = "again"]
  /\ UNCHANGED <<disk, open, fs, alive, creates, removes, run, hand, env, folds>>
\* does it still belong there?
Again(w) == LET x == work[w] f == OwnerOf(x.p, fs) IN
  /\ x.st = "again"
  /\ IF f = x.f /\ ~x.old THEN /\ work' = [work EXCEPT ![w] = Idle] /\ UNCHANGED db
                     /\ run' = IF x.who = None THEN run ELSE [run EXCEPT ![x.who].todo = @ \ {x.p}]
     ELSE /\ (x.old \/ ~Locked(x.f, x.p)) /\ PutOld(x, NoText)
          /\ IF f = None THEN /\ work' = [work EXCEPT ![w] = Idle]
                              /\ run' = IF x.who = None THEN run ELSE [run EXCEPT ![x.who].todo = @ \ {x.p}]
             ELSE work' = [work EXCEPT ![w].st = "found", ![w].f = f, ![w].old = FALSE] /\ UNCHANGED run
  /\ UNCHANGED <<disk, open, fs, alive, creates, removes, hand, env, folds>>
\* a removed file: only a known document whose file is gone is forgotten. Whoever was indexing
\* it when the removal was taken up has finished before
Remove(w) == \E p \in removes :
  /\ work[w].st = "idle" /\ removes' = removes \ {p}
  /\ LET f == OwnerOf(p, fs) IN
     IF f = None THEN UNCHANGED work
     ELSE work' = [work EXCEPT ![w] = [st |-> "gone", p |-> p, f |-> f, text |-> NoText, who |-> None, op |-> "remove", old |-> FALSE]]
  /\ UNCHANGED <<disk, open, fs, db, alive, creates, run, hand, env, folds>>
RemoveRead(w) == LET x == work[w] IN
  /\ x.st = "gone" /\ (x.old \/ ~Locked(x.f, x.p))
  /\ work' = IF x.old \/ db[x.f][x.p] = NoText THEN [work EXCEPT ![w] = Idle]
             ELSE [work EXCEPT ![w].st = "store", ![w].text = Content(x.p)]
  /\ UNCHANGED <<disk, open, fs, db, alive, creates, removes, run, hand, env, folds>>
RemoveWrite(w) == LET x == work[w] IN
  /\ x.st = "store" /\ x.op = "remove" /\ PutOld(x, x.text) /\ work' = [work EXCEPT ![w] = Idle]
  /\ UNCHANGED <<disk, open, fs, alive, creates, removes, run, hand, env, folds>>

\* ---- indexing a folder in the background
List(f) == /\ run[f].st \in {"list", "listpart"}
           /\ run' = [run EXCEPT ![f].st = IF @ = "list" THEN "wait" ELSE "off",
                                 ![f].todo = {p \in In[f] : disk[p] # NoText},
                                 \* what is there is not forgotten afterwards, if it is the folder's
                                 ![f].synced = IF run[f].st = "list" THEN {p \in @ : disk[p] = NoText \/ OwnerOf(p, fs) # f} ELSE @]
           /\ creates' = creates \cup {<<p, IF run[f].st = "list" THEN f ELSE None>> : p \in {p \in In[f] : disk[p] # NoText}}
           /\ UNCHANGED <<disk, open, fs, db, alive, removes, work, hand, env, folds>>
Waited(f) == /\ run[f].st = "wait" /\ run[f].todo = {} /\ run' = [run EXCEPT ![f].st = "finish"]
             /\ UNCHANGED <<disk, open, fs, db, alive, creates, removes, work, hand, env, folds>>
Finish(f) == /\ run[f].st = "finish"
             /\ IF run[f].synced = {} THEN run' = [run EXCEPT ![f] = NoRun] /\ UNCHANGED db
                ELSE \E p \in run[f].synced : /\ ~Locked(f, p)
                       /\ run' = [run EXCEPT ![f].synced = @ \ {p}]
                       /\ IF open[p] = NoText THEN Put(f, p, NoText) ELSE UNCHANGED db
             /\ UNCHANGED <<disk, open, fs, alive, creates, removes, work, hand, env, folds>>

\* ---- messages
AddFolder(f) == /\ hand = NoMsg /\ f \notin fs /\ folds < MaxFold /\ folds' = folds + 1
                /\ fs' = fs \cup {f} /\ alive' = alive \cup {f}
                /\ hand' = [op |-> "add", f |-> f, st |-> 1, left |-> In[f]]
                /\ UNCHANGED <<disk, open, db, creates, removes, work, run, env>>
\* the enclosing folder forgets the documents, one after the other
Forget == LET g == Enclosing(hand.f, fs) IN
  /\ hand.op = "add" /\ hand.st = 1
  /\ IF g = None \/ hand.left = {} THEN hand' = [hand EXCEPT !.st = 2] /\ UNCHANGED db
     ELSE \E p \in hand.left : ~Locked(g, p) /\ Put(g, p, NoText) /\ hand' = [hand EXCEPT !.left = @ \ {p}]
  /\ UNCHANGED <<disk, open, fs, alive, creates, removes, work, run, env, folds>>
StartRun == /\ hand.op = "add" /\ hand.st = 2 /\ hand' = NoMsg
            /\ run' = [run EXCEPT ![hand.f] = [st |-> "list", todo |-> {}, synced |-> {p \in Paths : db[hand.f][p] # NoText}]]
            /\ UNCHANGED <<disk, open, fs, db, alive, creates, removes, work, env, folds>>
\* the enclosing folder takes the documents over, in the background
RemoveFolder(f) == /\ hand = NoMsg /\ f \in fs /\ folds < MaxFold /\ folds' = folds + 1
                   /\ \A p \in Paths : open[p] # NoText => OwnerOf(p, fs \ {f}) # None
                   /\ fs' = fs \ {f} /\ hand' = [op |-> "rem", f |-> f, st |-> 1, left |-> {}]
                   /\ LET g == Enclosing(f, fs) ps == {p \in In[f] : disk[p] # NoText} IN
                      \* only what is there now is listed; later changes are reported
                      /\ creates' = {IF c[2] = f THEN <<c[1], None>> ELSE c : c \in creates}
                                     \cup (IF g = None THEN {} ELSE {<<p, None>> : p \in ps})
                      \* a file may be gone whose former contents are still being stored there
                      /\ removes' = IF g = None \/ ~Sweep THEN removes ELSE removes \cup In[f]
                   /\ run' = [run EXCEPT ![f] = NoRun]
                   /\ work' = [w \in Workers |-> IF work[w].who = f THEN [work[w] EXCEPT !.who = None] ELSE work[w]]
                   /\ UNCHANGED <<disk, open, db, alive, env>>
\* its database is closed once nobody is writing to it
CloseDb == /\ hand.op = "rem" /\ \A p \in Paths : ~Locked(hand.f, p)
           /\ alive' = alive \ {hand.f} /\ hand' = NoMsg
           /\ work' = [w \in Workers |-> IF work[w].f = hand.f THEN [work[w] EXCEPT !.old = TRUE] ELSE work[w]]
           /\ UNCHANGED <<disk, open, fs, db, creates, removes, run, env, folds>>
File == \E p \in Paths, t \in Texts \cup {NoText} :
  /\ env < MaxEnv /\ disk[p] # t /\ disk' = [disk EXCEPT ![p] = t] /\ env' = env + 1
  /\ IF t = NoText THEN removes' = removes \cup {p} /\ UNCHANGED creates
     ELSE creates' = creates \cup {<<p, None>>} /\ UNCHANGED removes
  /\ UNCHANGED <<open, fs, db, alive, work, run, hand, folds>>
Next == \/ \E w \in Workers : Take(w) \/ Read(w) \/ Write(w) \/ Again(w) \/ Remove(w) \/ RemoveRead(w) \/ RemoveWrite(w)
        \/ \E f \in Folders : List(f) \/ Waited(f) \/ Finish(f) \/ AddFolder(f) \/ RemoveFolder(f)
        \/ Forget \/ StartRun \/ CloseDb \/ File
Spec == Init /\ [][Next]_vars
Quiet == /\ creates = {} /\ removes = {} /\ hand = NoMsg /\ \A w \in Workers : work[w] = Idle
         /\ \A f \in Folders : run[f] = NoRun \/ f \notin alive
\* each document is indexed in the innermost folder containing it, and only there
Converged == Quiet => \A f \in fs, p \in Paths : db[f][p] = IF OwnerOf(p, fs) = f THEN Content(p) ELSE NoText
=============================================================================
