------------------------------- MODULE Frame -------------------------------
(***************************************************************************)
(* The base protocol's framing (internal/jsonrpc2/stream.go): concurrent   *)
(* writers put messages on one byte stream, a reader takes them off. The   *)
(* stream is a sequence of tokens: header lines, blank lines and units of  *)
(* body. A writer holds the lock over header and body; the transport may   *)
(* deliver any prefix of what was written, and may end at any token.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Writers, PerWriter, Sizes

VARIABLES todo,     \* writer -> messages yet to write (sequence of [w, n, len])
          lock,     \* 0 or the writer holding the lock
          part,     \* tokens the lock holder has yet to put
          wrote,    \* messages in the order their writers got the lock
          stream,   \* tokens written
          avail,    \* number of tokens the transport has delivered
          rd        \* reader: [at, len, got, st, msgs]

vars == <<todo, lock, part, wrote, stream, avail, rd>>

Hdr(n) == [t |-> "len", v |-> n]
Extra == [t |-> "other", v |-> 0]
Blank == [t |-> "blank", v |-> 0]
Bad == [t |-> "bad", v |-> 0]
Unit(m, k) == [t |-> "unit", v |-> <<m, k>>]

Encode(m) == <<Hdr(m.len), Blank>> \o [k \in 1..m.len |-> Unit(<<m.w, m.n>>, k)]

(* The reader, one token at a time; "hdr" while it reads the header of a message. *)
R0 == [st |-> "hdr", len |-> 0, got |-> <<>>, msgs |-> <<>>]
Read1(r, tok) ==
  CASE r.st = "err" -> r
    [] r.st = "hdr" /\ tok.t = "len" -> IF tok.v > 0 THEN [r EXCEPT !.len = tok.v] ELSE [r EXCEPT !.st = "err"]
    [] r.st = "hdr" /\ tok.t = "other" -> r
    [] r.st = "hdr" /\ tok.t = "blank" -> IF r.len > 0 THEN [r EXCEPT !.st = "body"] ELSE [r EXCEPT !.st = "err"]
    [] r.st = "hdr" /\ tok.t = "bad" -> [r EXCEPT !.st = "err"]
    [] r.st = "hdr" /\ tok.t = "unit" -> [r EXCEPT !.st = "err"]
    [] r.st = "body" -> LET g == Append(r.got, tok.v) IN
         IF Len(g) = r.len THEN [r EXCEPT !.st = "hdr", !.len = 0, !.got = <<>>, !.msgs = Append(@, g)]
                           ELSE [r EXCEPT !.got = g]

RECURSIVE ReadAll(_, _)
ReadAll(r, toks) == IF toks = <<>> THEN r ELSE ReadAll(Read1(r, Head(toks)), Tail(toks))

MsgsOf(w) == [n \in 1..PerWriter |-> [w |-> w, n |-> n, len |-> 0]]

Init == /\ todo = [w \in Writers |-> MsgsOf(w)]
        /\ lock = 0 /\ part = <<>> /\ wrote = <<>> /\ stream = <<>> /\ avail = 0
        /\ rd = R0

Acquire(w) ==
  /\ lock = 0 /\ todo[w] # <<>>
  /\ \E s \in Sizes :
       LET m == [Head(todo[w]) EXCEPT !.len = s] IN
       /\ lock' = w
       /\ part' = Encode(m)
       /\ wrote' = Append(wrote, m)
  /\ todo' = [todo EXCEPT ![w] = Tail(@)]
  /\ UNCHANGED <<stream, avail, rd>>

Put(w) ==
  /\ lock = w /\ part # <<>>
  /\ stream' = Append(stream, Head(part))
  /\ part' = Tail(part)
  /\ UNCHANGED <<todo, lock, wrote, avail, rd>>

Release(w) ==
  /\ lock = w /\ part = <<>>
  /\ lock' = 0
  /\ UNCHANGED <<todo, part, wrote, stream, avail, rd>>

Deliver ==
  /\ avail < Len(stream)
  /\ \E k \in 1..(Len(stream) - avail) :
       /\ avail' = avail + k
       /\ rd' = ReadAll(rd, SubSeq(stream, avail + 1, avail + k))
  /\ UNCHANGED <<todo, lock, part, wrote, stream>>

Next == \/ \E w \in Writers : Acquire(w) \/ Put(w) \/ Release(w)
        \/ Deliver
Spec == Init /\ [][Next]_vars

Body(m) == [k \in 1..m.len |-> <<<<m.w, m.n>>, k>>]
\* what has been read is what was written, in order, each once and whole
ReadsArePrefix == /\ rd.st # "err"
                  /\ Len(rd.msgs) <= Len(wrote)
                  /\ \A i \in 1..Len(rd.msgs) : rd.msgs[i] = Body(wrote[i])
\* everything delivered is everything read
AllRead == (avail = Len(stream) /\ lock = 0) => Len(rd.msgs) = Len(wrote) /\ rd.st = "hdr" /\ rd.len = 0
\* each writer's messages keep their order
WriterOrder == \A i, j \in 1..Len(wrote) : (i < j /\ wrote[i].w = wrote[j].w) => wrote[i].n < wrote[j].n
=============================================================================
