------------------------------ MODULE FrameGen -----------------------------
(* Random byte streams for the reader: messages behind headers of every shape, cut into reads
   anywhere, ending cleanly, in the middle of a header or body, or with a malformed header.
   The expected messages come from Frame's reader. *)
EXTENDS Frame, Json
CONSTANT MaxFrames

\* how a header line is spelt -> the token it is
Good == {"cl", "clnospace", "clspaces", "cltab", "cllf", "clpad"}
Others == {"ct", "x", "xcolon", "xempty", "xlf"}
BadLines == {"nocolon", "clabc", "clempty", "clneg", "clzero", "clhuge", "clfloat", "garbage"}
Bodies == {"one", "ascii", "multi", "astral", "crlf", "nul", "big", "json", "space"}
Cuts == {1, 2, 3, 7, 64, 100000}

Tok(l) == CASE l \in Good -> Hdr(1)
            [] l \in Others -> Extra
            [] l = "clzero" -> Hdr(0)
            [] l \in BadLines -> Bad
            [] l \in {"blank", "blanklf"} -> Blank

VARIABLES lines,   \* the stream so far: sequence of [l, b] (line kind; body kind for "unit")
          n, fin
gvars == <<lines, n, fin>>

L(k) == [l |-> k, b |-> ""]
Pick(S) == RandomElement(IF n >= 0 THEN S ELSE {})

OthersSeq == CASE Pick(1..4) = 1 -> <<L(Pick(Others))>>
               [] Pick(1..4) = 2 -> <<L(Pick(Others)), L(Pick(Others))>>
               [] OTHER -> <<>>
BlankLine == IF Pick(1..3) = 1 THEN L("blanklf") ELSE L("blank")

GInit == lines = <<>> /\ n = 0 /\ fin = FALSE /\ Init
Frame1 ==
  /\ ~fin /\ n < MaxFrames
  /\ \E pre \in {OthersSeq}, post \in {OthersSeq}, c \in {Pick(Good)}, b \in {Pick(Bodies)}, bl \in {BlankLine} :
       lines' = lines \o pre \o <<L(c)>> \o post \o <<bl, [l |-> "unit", b |-> b]>>
  /\ n' = n + 1 /\ fin' = FALSE
BadHeader ==
  /\ ~fin
  /\ \E pre \in {OthersSeq}, k \in {Pick(BadLines \cup {"none"})}, bl \in {BlankLine}, b \in {Pick(Bodies)} :
       lines' = lines \o pre \o (IF k = "none" THEN <<>> ELSE <<L(k)>>) \o <<bl, [l |-> "unit", b |-> b]>>
  /\ n' = n + 1 /\ fin' = TRUE

Toks(ls) == [i \in 1..Len(ls) |-> IF ls[i].l = "unit" THEN [t |-> "unit", v |-> ls[i].b] ELSE Tok(ls[i].l)]
\* bodies of the messages delivered from the first k lines
Expect(k) == LET r == ReadAll(R0, Toks(SubSeq(lines, 1, k))) IN [i \in 1..Len(r.msgs) |-> r.msgs[i][1]]

\* end: "eof" after all lines; otherwise the stream ends inside line k (at a random byte of it)
End ==
  /\ n > 0 /\ (fin \/ n = MaxFrames \/ Pick(1..8) = 1)
  /\ \E k \in {Pick(0..Len(lines))}, c \in {Pick(Cuts)}, at \in {Pick(0..99)} :
       PrintT("@@" \o ToJson([lines |-> lines, inside |-> k, at |-> at, cut |-> c,
                              msgs |-> IF k = 0 THEN Expect(Len(lines)) ELSE Expect(k - 1)]))
  /\ n' = 0 - 1 /\ UNCHANGED <<lines, fin>>
GNext == (n >= 0 /\ (Frame1 \/ (Pick(1..6) = 1 /\ BadHeader) \/ End)) /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_<<gvars, vars>>
=============================================================================
