----------------------------- MODULE MC_Effects -----------------------------
(***************************************************************************)
(* What an invocation does to the world around it, as a history of the     *)
(* machine: it looks at the settings files, and it writes to one of its    *)
(* two streams at the very end.  Nothing else is there to be touched, and  *)
(* the machine never changes what it was given (inp).  Observations of the *)
(* real program say what else was done (did); Judge wants that to be       *)
(* nothing.                                                                *)
(***************************************************************************)
EXTENDS MC

VARIABLE touched
Touches ==
    (IF layers = <<>> /\ layers' # <<>> THEN {"settings"} ELSE {})
    \cup (IF out' # out THEN {"stdout"} ELSE {})
    \cup (IF err' # err THEN {"stderr"} ELSE {})
EffInit == MCInit /\ touched = {}
EffNext == MCNext /\ touched' = touched \cup Touches
EffSpec == EffInit /\ [][EffNext]_<<vars, touched>>

TouchedOnly == touched \subseteq {"settings", "stdout", "stderr"}
OneStream == ~({"stdout", "stderr"} \subseteq touched)
StreamsLast == touched \cap {"stdout", "stderr"} # {} => Done
\* What's refused or explained is so without a look at the settings.
UsageTouchesNothing == cl.verdict \in {"usage", "help", "version"} => "settings" \notin touched
InputsKept == [][inp' = inp]_vars
=============================================================================
