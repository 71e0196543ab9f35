--------------------------- MODULE Lifecycle ---------------------------
(* The phases of a server and what it answers to lifecycle messages. Everything else is
   answered too, in every phase; what it is answered with is left open here. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES phase,   \* "created", "initializing" (initialize has been answered), "initialized"
          down,    \* a shutdown has succeeded
          inits    \* how many times initialisation succeeded
lvars == <<phase, down, inits>>
LInit == phase = "created" /\ down = FALSE /\ inits = 0
\* what the client is answered: "result", "error", or "any"; "none" for notifications
InitAnswer(folders) == IF phase = "created" /\ folders > 0 THEN "result" ELSE "error"
ShutdownAnswer == IF phase = "initialized" THEN "result" ELSE "error"
Initialize(folders) ==
  IF InitAnswer(folders) = "result" THEN phase' = "initializing" /\ inits' = inits + 1 /\ UNCHANGED down
  ELSE UNCHANGED lvars
Initialized == IF phase = "initializing" THEN phase' = "initialized" /\ UNCHANGED <<down, inits>> ELSE UNCHANGED lvars
Shutdown == IF ShutdownAnswer = "result" THEN down' = TRUE /\ UNCHANGED <<phase, inits>> ELSE UNCHANGED lvars
Other == UNCHANGED lvars
\* documents are served
Serving == phase = "initialized" /\ ~down
Once == inits <= 1 /\ (phase # "created" <=> inits = 1) /\ (down => phase = "initialized")
LNext == (\E f \in 0..2 : Initialize(f)) \/ Initialized \/ Shutdown \/ Other
LSpec == LInit /\ [][LNext]_lvars
NoWayBack == [][/\ (phase = "initialized" => phase' = "initialized") /\ (phase' = "created" => phase = "created") /\ (down => down')]_lvars
========================================================================
