--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* All behaviours of Pemv on one or more of the sets of Inputs.  The       *)
(* design properties are checked in every state; every input is printed    *)
(* when its behaviour ends, so that it can be run on the real program.     *)
(***************************************************************************)
EXTENDS Inputs, Json, IOUtils

Models == JsonDeserialize(IOEnv.PEMV_MODELS)

MCInit == \E k \in 1..Len(Models) : \E x \in InputsOf(Models[k]) : Start(x)
MCNext == Next \/ (Done /\ UNCHANGED vars)
Emit == Done => PrintT("CASE " \o ToJson([inp |-> inp, got |-> cl.got, verdict |-> cl.verdict]))
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(Next)

(***************************************************************************)
(* The design                                                              *)
(***************************************************************************)
\* C02, C07, C08, C23: nothing is written before everything is known to be well.
AllOrNothing == (~Done => out = Quiet) /\ (err # NoErr => out = Quiet)
\* C03, C05: masked and primitive data objects have no children.
RECURSIVE WellNested(_)
WellNested(ns) == \A i \in 1..Len(ns) :
    /\ ns[i].masked \/ Bit(ns[i].tag[1], 5) = 0 => ns[i].kids = <<>>
    /\ WellNested(ns[i].kids)
Nested == WellNested(nodes)
\* C04
RECURSIVE MaskedRight(_)
MaskedRight(ns) == \A i \in 1..Len(ns) :
    /\ format = "ber" => (ns[i].masked <=> /\ Len(ns[i].data) >= 2
                                           /\ \E m \in Masks(set) : \A k \in 1..Len(ns[i].data) : ns[i].data[k] = m)
    /\ MaskedRight(ns[i].kids)
MaskedRightly == pc = "annotate" => MaskedRight(nodes)
\* C05: what's masked isn't known to the rest of the machine.
RECURSIVE NothingShown(_)
NothingShown(ns) == \A i \in 1..Len(ns) :
    /\ ns[i].masked => ns[i].data = <<>> /\ ~ns[i].parsed /\ ns[i].view = <<>> /\ ns[i].kids = <<>>
    /\ NothingShown(ns[i].kids)
MaskedHidden == pc \in {"sort", "write", "exit"} => NothingShown(nodes)
\* C09
RECURSIVE InOrder(_)
InOrder(ns) == /\ \A i \in 1..(Len(ns) - 1) : ~Before(ns[i + 1].tag, ns[i].tag)
               /\ \A i \in 1..Len(ns) : InOrder(ns[i].kids)
SortedWhenAsked == pc \in {"write", "exit"} /\ Sorted(set) => InOrder(nodes)
\* C10: settings only ever come from the layers, the last one that says something wins.
SettingsFromLayers ==
    pc \in {"dispatch", "scan", "annotate", "sort", "write"} =>
        LET all == << Builtin, ProfileLayer(TheFile, DefaultProfile), ProfileLayer(TheFile, SelectedProfile),
                      ProfileLayer(TheFile, GlobalProfile), inp.env, CliLayer >>
            last(get(_)) == get(all[CHOOSE k \in 1..6 : get(all[k]) # <<>> /\ \A j \in (k+1)..6 : get(all[j]) = <<>>])
        IN /\ set.colour = last(LAMBDA l : l.colour)
           /\ set.masks = last(LAMBDA l : l.masks)
           /\ set.sort = last(LAMBDA l : l.sort)
\* C20: no line is indented less than the level it belongs to, blank lines not at all.
Blanks0 == Done => \A i \in 1..Len(out) : out[i].s = <<>> => out[i].n = 0
\* C22: the styles are the only difference between the modes.
StylesOnly == Done => \A i \in 1..Len(out) : TextOf(Styled(out[i])) = TextOf(Unstyled(out[i]))
=============================================================================
