------------------------------- MODULE Control -------------------------------
(***************************************************************************)
(* Control over a body before and after collisions.  `class` is how the body   *)
(* reacts to having collided: "keeps" (cars and moving obstacles keep obeying   *)
(* commands), "loses" (everything else moves without actuation from then on).   *)
(* A collision cannot be undone.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANT MaxOps
VARIABLES class, collided, hist
vars == <<class, collided, hist>>
Init == class \in {"keeps", "loses"} /\ collided = FALSE /\ hist = <<>>
InControl == class = "keeps" \/ ~collided
\* a step under one of two different commands; which of {0 (nothing), 1, 2} the motion follows
Step(c) == Len(hist) < MaxOps /\ hist' = Append(hist, [op |-> "step", cmd |-> c, follows |-> IF InControl THEN c ELSE 0]) /\ UNCHANGED <<class, collided>>
Hit == Len(hist) < MaxOps /\ collided' = TRUE /\ hist' = Append(hist, [op |-> "hit", cmd |-> 0, follows |-> 0]) /\ UNCHANGED class
Next == Hit \/ \E c \in 1..2 : Step(c)
Spec == Init /\ [][Next]_vars
NeverRegained == [][collided => collided']_collided
OutOfControl == \A k \in DOMAIN hist : hist[k].op = "step" /\ hist[k].follows = 0 => class = "loses" /\ \E j \in 1..k : hist[j].op = "hit"
ObeysBefore == \A k \in DOMAIN hist : hist[k].op = "step" /\ (\A j \in 1..k : hist[j].op # "hit") => hist[k].follows = hist[k].cmd
Emit == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson([class |-> class, hist |-> hist])>>, IOEnv.OUT)
=============================================================================
