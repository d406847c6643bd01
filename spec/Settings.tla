------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* The settings and the layers they come from.                             *)
(*                                                                         *)
(* A layer says something about each setting or nothing: <<>> or <<v>>.    *)
(* The value "?" (<<NoMask>> for the masking characters) stands for a      *)
(* value that isn't one; it does no harm unless it takes effect.           *)
(*                                                                         *)
(* A file is [there, broken, profiles], the profiles being a sequence of   *)
(* [name, layer] with the names as code points.                            *)
(***************************************************************************)
EXTENDS PemvText

NoMask == -1
Layer(colour, masks, sort) == [colour |-> colour, masks |-> masks, sort |-> sort]
Nothing == Layer(<<>>, <<>>, <<>>)
Builtin == Layer(<<"auto">>, << <<42>> >>, <<"true">>)

\* Where the upper layer says nothing, the lower one counts.
Over(upper, lower) ==
    [colour |-> IF upper.colour = <<>> THEN lower.colour ELSE upper.colour,
     masks |-> IF upper.masks = <<>> THEN lower.masks ELSE upper.masks,
     sort |-> IF upper.sort = <<>> THEN lower.sort ELSE upper.sort]

LowerCase(name) == [i \in 1..Len(name) |-> IF name[i] \in 65..90 THEN name[i] + 32 ELSE name[i]]
DefaultProfile == <<100, 101, 102, 97, 117, 108, 116>>          \* default
GlobalProfile == <<103, 108, 111, 98, 97, 108>>                 \* global
\* What a file's profile of this name says.
ProfileLayer(file, name) ==
    LET ks == { k \in 1..Len(file.profiles) : LowerCase(file.profiles[k].name) = LowerCase(name) } IN
    IF ~file.there \/ ks = {} THEN Nothing ELSE file.profiles[CHOOSE k \in ks : TRUE].layer

NoFile == [there |-> FALSE, broken |-> FALSE, profiles |-> <<>>]
\* The nearest file, dirs[1] being in the working directory, dirs[2] in its parent and so on.
RECURSIVE Nearest(_)
Nearest(dirs) == IF dirs = <<>> THEN NoFile
                 ELSE IF Head(dirs).there THEN Head(dirs) ELSE Nearest(Tail(dirs))

ValidSettings(s) ==
    /\ s.colour[1] \in {"auto", "always", "ansi", "never"}
    /\ \A i \in 1..Len(s.masks[1]) : s.masks[1][i] # NoMask
    /\ s.sort[1] \in {"true", "false"}
Masks(s) == { s.masks[1][i] : i \in 1..Len(s.masks[1]) }
Sorted(s) == s.sort[1] = "true"
\* Does the output have colours?
Coloured(s, world) ==
    \/ s.colour[1] \in {"always", "ansi"}
    \/ s.colour[1] = "auto" /\ world.tty /\ ~world.nocolor /\ world.term \notin {"", "dumb"}
=============================================================================
