------------------------------- MODULE Store -------------------------------
(* The design of the index: two databases, written one after the other, which several workers
   keep in step with the files on disk and the documents the client has open. A text stands for
   everything that is stored about it. Workers lock the document they work on; a crash can
   happen between any two writes, and loses everything but the databases. *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Paths, Texts, Workers, MaxEnv, MaxCrash
NoText == "none"
Unknown == "unknown"         \* the hash has been forgotten
VARIABLES
  disk, open,                \* Paths -> Texts or NoText
  hash, main, com,           \* databases: of which text the document's hash, symbols, names are
  creates, removes,          \* documents which are to be compared, or which might be gone
  work,                      \* what a worker is doing: [p, op, text, st] or Idle
  synced, listed, phase,     \* indexing the folder: known documents not seen yet
  env, crashes
vars == <<disk, open, hash, main, com, creates, removes, work, synced, listed, phase, env, crashes>>
db == <<hash, main, com>>
Idle == [p |-> NoText, op |-> "idle", text |-> NoText, st |-> 0]
Free(p) == \A w \in Workers : work[w].p # p
Stored(t) == t # NoText
Init ==
  /\ disk \in [Paths -> Texts \cup {NoText}] /\ open = [p \in Paths |-> NoText]
  /\ hash = [p \in Paths |-> NoText] /\ main = hash /\ com = hash
  /\ creates = {} /\ removes = {} /\ work = [w \in Workers |-> Idle]
  /\ synced = {} /\ listed = {} /\ phase = "down" /\ env = 0 /\ crashes = 0

\* ---- the server starts: remember what is known, list the files, index them, drop the rest
Prepare == /\ phase = "down" /\ phase' = "prepared" /\ synced' = {p \in Paths : hash[p] # NoText}
           /\ UNCHANGED <<disk, open, db, creates, removes, work, listed, env, crashes>>
List == /\ phase = "prepared" /\ phase' = "indexing"
        /\ listed' = {p \in Paths : Stored(disk[p])} /\ creates' = creates \cup listed'
        /\ UNCHANGED <<disk, open, db, removes, work, synced, env, crashes>>
\* every listed file has been compared
Indexed == /\ phase = "indexing" /\ listed = {} /\ phase' = "finishing"
           /\ UNCHANGED <<disk, open, db, creates, removes, work, synced, listed, env, crashes>>
\* forget one which has not been seen
Finish == /\ phase = "finishing" /\ synced = {} /\ phase' = "up"
          /\ UNCHANGED <<disk, open, db, creates, removes, work, synced, listed, env, crashes>>
Start(w, p, op, t) == work' = [work EXCEPT ![w] = [p |-> p, op |-> op, text |-> t, st |-> 1]]
FinishOne(w) == \E p \in synced :
  /\ phase = "finishing" /\ work[w] = Idle /\ Free(p)
  /\ synced' = synced \ {p}
  /\ IF open[p] = NoText THEN Start(w, p, "store", NoText) ELSE UNCHANGED work
  /\ UNCHANGED <<disk, open, db, creates, removes, listed, phase, env, crashes>>

\* ---- workers. Comparing reads the file, and stores it unless its hash is known
Compare(w, p) == IF open[p] # NoText \/ disk[p] = hash[p] THEN UNCHANGED work ELSE Start(w, p, "store", disk[p])
Create(w) == \E p \in creates :
  /\ work[w] = Idle /\ Free(p) /\ phase # "down"
  /\ creates' = creates \ {p} /\ listed' = listed \ {p} /\ synced' = synced \ {p}
  /\ Compare(w, p)
  /\ UNCHANGED <<disk, open, db, removes, phase, env, crashes>>
\* listed files are waited for until they are stored
Remove(w) == \E p \in removes :
  /\ work[w] = Idle /\ Free(p) /\ phase # "down" /\ removes' = removes \ {p}
  /\ IF hash[p] = NoText THEN UNCHANGED work ELSE Compare(w, p)
  /\ UNCHANGED <<disk, open, db, creates, synced, listed, phase, env, crashes>>
\* storing, in the order of the writes
Store1(w) == /\ work[w].op = "store" /\ work[w].st = 1
             /\ hash' = [hash EXCEPT ![work[w].p] = Unknown] /\ work' = [work EXCEPT ![w].st = 2]
             /\ UNCHANGED <<disk, open, main, com, creates, removes, synced, listed, phase, env, crashes>>
Store2(w) == /\ work[w].op = "store" /\ work[w].st = 2
             /\ com' = [com EXCEPT ![work[w].p] = work[w].text] /\ work' = [work EXCEPT ![w].st = 3]
             /\ UNCHANGED <<disk, open, hash, main, creates, removes, synced, listed, phase, env, crashes>>
Store3(w) == /\ work[w].op = "store" /\ work[w].st = 3
             /\ main' = [main EXCEPT ![work[w].p] = work[w].text] /\ hash' = [hash EXCEPT ![work[w].p] = work[w].text]
             /\ work' = [work EXCEPT ![w] = Idle]
             /\ UNCHANGED <<disk, open, com, creates, removes, synced, listed, phase, env, crashes>>

\* ---- the client; its messages are handled while the document is locked
OpenDoc(w) == \E p \in Paths, t \in Texts :
  /\ phase \notin {"down"} /\ env < MaxEnv /\ work[w] = Idle /\ Free(p)
  /\ open' = [open EXCEPT ![p] = t] /\ Start(w, p, "store", t) /\ env' = env + 1
  /\ UNCHANGED <<disk, db, creates, removes, synced, listed, phase, crashes>>
CloseDoc(w) == \E p \in Paths :
  /\ open[p] # NoText /\ env < MaxEnv /\ work[w] = Idle /\ Free(p)
  /\ open' = [open EXCEPT ![p] = NoText] /\ env' = env + 1
  /\ IF disk[p] = hash[p] THEN UNCHANGED work ELSE Start(w, p, "store", disk[p])
  /\ UNCHANGED <<disk, db, creates, removes, synced, listed, phase, crashes>>
\* ---- files change, and the client reports it
File == \E p \in Paths, t \in Texts \cup {NoText} :
  /\ env < MaxEnv /\ disk[p] # t /\ disk' = [disk EXCEPT ![p] = t] /\ env' = env + 1
  /\ IF phase = "down" THEN UNCHANGED <<creates, removes>>
     ELSE IF Stored(t) THEN creates' = creates \cup {p} /\ UNCHANGED removes
     ELSE removes' = removes \cup {p} /\ UNCHANGED creates
  /\ UNCHANGED <<open, db, work, synced, listed, phase, crashes>>
\* ---- the process dies
Crash == /\ phase # "down" /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ phase' = "down" /\ open' = [p \in Paths |-> NoText] /\ creates' = {} /\ removes' = {}
         /\ work' = [w \in Workers |-> Idle] /\ synced' = {} /\ listed' = {}
         /\ UNCHANGED <<disk, db, env>>
Next == Prepare \/ List \/ Indexed \/ Finish \/ File \/ Crash
        \/ \E w \in Workers : FinishOne(w) \/ Create(w) \/ Remove(w) \/ Store1(w) \/ Store2(w) \/ Store3(w) \/ OpenDoc(w) \/ CloseDoc(w)
Spec == Init /\ [][Next]_vars

Quiet == phase = "up" /\ creates = {} /\ removes = {} /\ \A w \in Workers : work[w] = Idle
Content(p) == IF open[p] # NoText THEN open[p] ELSE disk[p]
\* when nothing is left to do, the index holds exactly what it should
Converged == Quiet => \A p \in Paths : main[p] = Content(p) /\ com[p] = Content(p) /\ hash[p] = Content(p)
\* a known hash never lies: it says what both databases hold
HashTruthful == \A p \in Paths : hash[p] \notin {Unknown, NoText} => main[p] = hash[p] /\ com[p] = hash[p]
\* nothing is left behind unless it is going to be seen again
NothingForgotten == \A p \in Paths : hash[p] = NoText => main[p] = NoText /\ com[p] = NoText
OneWriter == \A v, w \in Workers : v # w /\ work[v].p # NoText => work[v].p # work[w].p
=============================================================================
