------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Observed invocations of the real program, checked against Pemv: every   *)
(* record of the trace starts the machine with the inputs it was observed  *)
(* with; when the machine is done, the observation is judged.              *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Prop == IOEnv.PEMV_PROP
TraceRecords == ndJsonDeserialize(IOEnv.PEMV_TRACE)

VARIABLES rec, step

TraceInit == \E i \in 1..Len(TraceRecords) : /\ rec = i /\ step = 0
                                             /\ Start(TraceRecords[i].inp)
\* A record that's only skimmed through, because there's too much to look at:
\* what's judged is whether there was an answer or a message, without waiting for the machine's.
Skim == TraceRecords[rec].skim # ""
Judged == Done \/ (Skim /\ pc = TraceRecords[rec].skim)
Stop == Judged /\ UNCHANGED <<vars, step>>
TraceNext == /\ \/ ~Judged /\ Next /\ step' = step + 1
                \/ Stop
             /\ UNCHANGED rec
TraceView == <<rec, step>>

Report(o) ==
    PrintT("MISMATCH " \o ToJson([rec |-> rec, expected |->
        [class |-> Class, rc |-> rc, err |-> IF err = NoErr THEN "" ELSE IF ErrText(err) = "?" THEN err.kind ELSE ErrText(err),
         out |-> [i \in 1..(IF Len(out) > 100 THEN 100 ELSE Len(out)) |-> Times("\t", out[i].n) \o TextOf(out[i])]]]))
Conforms == Judged => LET r == TraceRecords[rec] IN
               Judge(IF Skim THEN "C23" ELSE Prop, r.obs, r.mates) \/ (Report(r.obs) /\ FALSE)
\* What TLC shows of a state.
Brief == [record |-> rec, step |-> step]
Consistent == AnswerOrMessage /\ UsageStatus
=============================================================================
