-------------------------------- MODULE Pemv --------------------------------
(***************************************************************************)
(* An invocation of pemv, from the command line to the exit status.        *)
(*                                                                         *)
(* inp, which never changes, is what the invocation is given:              *)
(*   argv    the arguments, as sequences of code points                    *)
(*   env     the layer of the PEMV_ environment variables                  *)
(*   profile the value of PEMV_PROFILE: <<>> or <<name>>                   *)
(*   dirs    the files called pemv.toml in the working directory and its   *)
(*           ancestors, or the one that PEMV_CONFIG names instead          *)
(*   tty, nocolor, term   where it's run                                   *)
(*                                                                         *)
(* The other variables are the state:                                      *)
(*   pc      what comes next                                               *)
(*   cl      the command line machine                                      *)
(*   set     the settings as far as they've been put together              *)
(*   layers  the layers still to come, lowest first                        *)
(*   format  the TLV format being read: "" "ingenico" "ber"                *)
(*   data    the bytes or characters being read                            *)
(*   sc      the scanner of that format                                    *)
(*   nodes   the data objects, first as read, then annotated, then sorted  *)
(*   out, err, rc   lines written, error, exit status                      *)
(*                                                                         *)
(* FineLimit: inputs longer than this are read in one step instead of byte *)
(* by byte; MC_Scanner shows that it makes no difference.                  *)
(***************************************************************************)
EXTENDS Cli, Settings, Listing

Ber == INSTANCE BerScanner
Ing == INSTANCE IngenicoScanner

CONSTANT FineLimit

VARIABLES inp, pc, cl, set, layers, format, data, sc, nodes, out, err, rc
vars == <<inp, pc, cl, set, layers, format, data, sc, nodes, out, err, rc>>

\* What comes out in the end, besides out: kinds of errors are ErrText's, and
\*   "usage", "config", "unrecognised format"
Quiet == <<>>
NoScanner == <<>>

Start(input) ==
    /\ inp = input
    /\ pc = "cli" /\ cl = CliStart
    /\ set = Builtin /\ layers = <<>>
    /\ format = "" /\ data = <<>> /\ sc = NoScanner /\ nodes = <<>>
    /\ out = Quiet /\ err = NoErr /\ rc = 0

Op == GivenOp(cl)
Arg == GivenArg(cl)

(***************************************************************************)
(* The command line                                                        *)
(***************************************************************************)
ReadArgument ==
    /\ pc = "cli" /\ ~CliOver(cl)
    /\ cl' = CliStep(cl, inp.argv)
    /\ UNCHANGED <<inp, pc, set, layers, format, data, sc, nodes, out, err, rc>>

RefuseArguments ==
    /\ pc = "cli" /\ cl.verdict = "usage"
    /\ pc' = "exit" /\ err' = Err("usage") /\ rc' = 2
    /\ UNCHANGED <<inp, cl, set, layers, format, data, sc, nodes, out>>

HelpLines == << PlainLine(0, "help") >>          \* the text isn't specified here
VersionLines == << PlainLine(0, "version") >>
ShowHelp ==
    /\ \/ pc = "cli" /\ cl.verdict \in {"help", "version"}
       \/ pc = "dispatch" /\ Op = ""
    /\ pc' = "exit" /\ out' = IF cl.verdict = "version" THEN VersionLines ELSE HelpLines
    /\ UNCHANGED <<inp, cl, set, layers, format, data, sc, nodes, err, rc>>

(***************************************************************************)
(* The settings                                                            *)
(***************************************************************************)
Given(id) == id \in GivenIn(cl.got)
BoolOf(vals) == IF vals = <<>> THEN "true" ELSE AsString(vals[1])
CliLayer ==
    Layer(IF Given("colour") THEN << AsString(ValuesOf(cl, "colour")[1]) >> ELSE <<>>,
          IF Given("masks") THEN << [k \in 1..Len(ValuesOf(cl, "masks")) |-> ValuesOf(cl, "masks")[k][1]] >> ELSE <<>>,
          IF Given("sort") THEN << BoolOf(ValuesOf(cl, "sort")) >>
          ELSE IF Given("nosort")
               THEN << IF BoolOf(ValuesOf(cl, "nosort")) = "true" THEN "false" ELSE "true" >> ELSE <<>>)
SelectedProfile == IF inp.profile = <<>> THEN DefaultProfile ELSE inp.profile[1]
TheFile == Nearest(inp.dirs)

FindSettings ==
    /\ pc = "cli" /\ cl.verdict = "run"
    /\ pc' = "settings"
    /\ layers' = << ProfileLayer(TheFile, DefaultProfile), ProfileLayer(TheFile, SelectedProfile),
                    ProfileLayer(TheFile, GlobalProfile), inp.env, CliLayer >>
    /\ UNCHANGED <<inp, cl, set, format, data, sc, nodes, out, err, rc>>
AddLayer ==
    /\ pc = "settings" /\ layers # <<>>
    /\ set' = Over(Head(layers), set)
    /\ layers' = Tail(layers)
    /\ UNCHANGED <<inp, pc, cl, format, data, sc, nodes, out, err, rc>>
SettleSettings ==
    /\ pc = "settings" /\ layers = <<>>
    /\ ValidSettings(set) /\ ~TheFile.broken
    /\ pc' = "dispatch"
    /\ UNCHANGED <<inp, cl, set, layers, format, data, sc, nodes, out, err, rc>>
RejectSettings ==
    /\ pc = "settings" /\ layers = <<>>
    /\ ~ValidSettings(set) \/ TheFile.broken
    /\ pc' = "exit" /\ err' = Err("config")
    /\ UNCHANGED <<inp, cl, set, layers, format, data, sc, nodes, out, rc>>

(***************************************************************************)
(* The operations on a single value                                        *)
(***************************************************************************)
SingleValue(op, arg) ==
    CASE op = "identify" -> Identify(HexBytes(arg))
      [] op = "tvr" -> Tvr(HexBytes(arg))
      [] op = "iad" -> Iad(HexBytes(arg))
      [] op = "cvr" -> Cvr(HexBytes(arg))
      [] op = "tsi" -> Tsi(HexBytes(arg))
      [] op = "cvmresults" -> CvmResults(HexBytes(arg))
      [] op = "cvmlist" -> CvmList(HexBytes(arg))
      [] op = "servicecode" -> ServiceCodeText(arg)
DecodeValue ==
    /\ pc = "dispatch" /\ Op \in Operations \ TlvOperations
    /\ LET d == SingleValue(Op, Arg) IN
         /\ out' = d.view
         /\ err' = d.err
    /\ pc' = "exit"
    /\ UNCHANGED <<inp, cl, set, layers, format, data, sc, nodes, rc>>

(***************************************************************************)
(* The operations on a block                                               *)
(***************************************************************************)
IsFine == Len(Arg) <= FineLimit
TryIngenico ==
    /\ pc = "dispatch" /\ Op \in {"auto", "ingenico"}
    /\ pc' = "scan" /\ format' = "ingenico" /\ data' = Arg
    /\ sc' = Ing!IngStart
    /\ UNCHANGED <<inp, cl, set, layers, nodes, out, err, rc>>
TryBer ==
    /\ \/ pc = "dispatch" /\ Op = "ber"
       \/ pc = "retry"
    /\ pc' = "scan" /\ format' = "ber" /\ data' = HexBytes(Arg)
    /\ sc' = Ber!ScanStart(HexBytes(Arg))
    /\ UNCHANGED <<inp, cl, set, layers, nodes, out, err, rc>>

ScanIsOver == IF format = "ber" THEN Ber!ScanOver(sc) ELSE Ing!IngOver(sc)
\* one step of the scanner
ScanOne ==
    /\ pc = "scan" /\ IsFine /\ ~ScanIsOver
    /\ sc' = IF format = "ber" THEN Ber!ScanStep(sc, data, Masks(set)) ELSE Ing!IngStep(sc, data, Masks(set))
    /\ UNCHANGED <<inp, pc, cl, set, layers, format, data, nodes, out, err, rc>>
ScanResult ==
    IF IsFine THEN IF format = "ber" THEN Ber!ScanResult(sc) ELSE Ing!IngResult(sc)
    ELSE IF format = "ber" THEN Ber!ParseBer(data, Masks(set)) ELSE Ing!ParseIngenico(data, Masks(set))
\* the scanner has come to an end, or needn't be followed step by step
ScanDone ==
    /\ pc = "scan" /\ (IsFine => ScanIsOver)
    /\ LET r == ScanResult IN
       IF r.ok THEN pc' = "annotate" /\ nodes' = r.nodes /\ UNCHANGED err
       ELSE IF Op = "auto" /\ format = "ingenico" THEN pc' = "retry" /\ UNCHANGED <<nodes, err>>
       ELSE /\ pc' = "exit"
            /\ err' = IF Op = "auto" THEN Err("unrecognised") ELSE r.err
            /\ UNCHANGED nodes
    /\ sc' = NoScanner
    /\ UNCHANGED <<inp, cl, set, layers, format, data, out, rc>>

AnnotateBlock ==
    /\ pc = "annotate"
    /\ LET r == AnnotateNodes(nodes, 1, <<>>) IN
       IF r.ok THEN pc' = "sort" /\ nodes' = r.nodes /\ UNCHANGED err
       ELSE pc' = "exit" /\ err' = r.err /\ nodes' = <<>>
    /\ UNCHANGED <<inp, cl, set, layers, format, data, sc, out, rc>>
SortBlock ==
    /\ pc = "sort"
    /\ nodes' = IF Sorted(set) THEN SortForest(nodes) ELSE nodes
    /\ pc' = "write"
    /\ UNCHANGED <<inp, cl, set, layers, format, data, sc, out, err, rc>>
FormatName == [ingenico |-> "Ingenico", ber |-> "BER-TLV"]
WriteBlock ==
    /\ pc = "write"
    /\ out' = FormatLines(IF Op = "auto" THEN FormatName[format] ELSE "") \o ForestLines(nodes, 0)
    /\ pc' = "exit"
    /\ UNCHANGED <<inp, cl, set, layers, format, data, sc, nodes, err, rc>>

Next ==
    \/ ReadArgument \/ RefuseArguments \/ ShowHelp
    \/ FindSettings \/ AddLayer \/ SettleSettings \/ RejectSettings
    \/ DecodeValue
    \/ TryIngenico \/ TryBer \/ ScanOne \/ ScanDone
    \/ AnnotateBlock \/ SortBlock \/ WriteBlock

Done == pc = "exit"

\* What is written in the end, with or without its colours.
Output == LET c == Coloured(set, inp) IN
          [i \in 1..Len(out) |-> IF c THEN Styled(out[i]) ELSE Unstyled(out[i])]

(***************************************************************************)
(* Properties of the design, checked for small inputs in the MC_ modules.  *)
(***************************************************************************)
\* C23: an answer or a message, never both.
AnswerOrMessage == /\ out # Quiet => err = NoErr /\ Done
                   /\ err # NoErr => Done
                   /\ Done => \/ err # NoErr \/ out # Quiet
                              \/ Op \in TlvOperations /\ nodes = <<>>
\* C24: usage errors, and only they, have an exit status other than 0.
UsageStatus == Done => ((rc = 2) <=> (err.kind = "usage"))
Termination == <>Done
Spec(init) == init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
