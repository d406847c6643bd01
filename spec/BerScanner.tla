----------------------------- MODULE BerScanner -----------------------------
(***************************************************************************)
(* BER-TLV as a machine: it reads one byte per step (a value in one step)  *)
(* and keeps a stack of the constructed data objects it is inside of.      *)
(* Running out of input inside a constructed data object doesn't reject    *)
(* the input: the object is taken as opaque and reading goes on behind it. *)
(*                                                                         *)
(* The state of the machine is a record, so that other machines can have   *)
(* one: [mode, stk, err], with the frames                                  *)
(*   [hi, pos, nodes, ts, te, need, len]                                   *)
(* where hi is the last byte of the frame, pos the next one, ts and te the *)
(* ends of the tag being read, need the length bytes still to come.        *)
(***************************************************************************)
EXTENDS BerTlv

Frame(lo, hi) == [hi |-> hi, pos |-> lo, nodes |-> <<>>, ts |-> 0, te |-> 0, need |-> 0, len |-> 0]
ScanStart(b) == [mode |-> "tag", stk |-> <<Frame(1, Len(b))>>, err |-> NoErr]
ScanOver(sc) == sc.mode \in {"done", "rejected"}
ScanResult(sc) == IF sc.mode = "done" THEN Ok(sc.stk[1].nodes) ELSE Bad(sc.err)

Top(sc) == sc.stk[Len(sc.stk)]
SetTop(sc, f, mode) == [sc EXCEPT !.stk = [@ EXCEPT ![Len(sc.stk)] = f], !.mode = mode]
HasByte(sc) == Top(sc).pos <= Top(sc).hi

\* Which step is next?
AtTag(sc)      == sc.mode = "tag" /\ HasByte(sc)
AtTagMore(sc)  == sc.mode = "tagmore" /\ HasByte(sc)
AtLength(sc)   == sc.mode = "len" /\ HasByte(sc)
AtLengthMore(sc) == sc.mode = "lenmore" /\ HasByte(sc)
AtValue(sc)    == sc.mode = "value" /\ Top(sc).len <= Top(sc).hi - Top(sc).pos + 1
AtEnd(sc)      == sc.mode = "tag" /\ ~HasByte(sc)
AtShort(sc)    == \/ sc.mode \in {"tagmore", "len", "lenmore"} /\ ~HasByte(sc)
                  \/ sc.mode = "value" /\ Top(sc).len > Top(sc).hi - Top(sc).pos + 1

ReadTag(sc, b) ==
    LET f == Top(sc) IN
    SetTop(sc, [f EXCEPT !.ts = f.pos, !.te = f.pos, !.pos = @ + 1],
           IF TagGoesOn(b[f.pos]) THEN "tagmore" ELSE "len")
ReadTagMore(sc, b) ==
    LET f == Top(sc) IN
    SetTop(sc, [f EXCEPT !.te = f.pos, !.pos = @ + 1], IF b[f.pos] < 128 THEN "len" ELSE "tagmore")

\* Leaving the innermost frame without its contents: reject at the bottom.
GiveUp(sc, err) ==
    IF Len(sc.stk) = 1 THEN [sc EXCEPT !.mode = "rejected", !.err = err]
    ELSE LET up == sc.stk[Len(sc.stk) - 1] IN
         [sc EXCEPT !.mode = "tag",
                    !.stk = SubSeq(@, 1, Len(@) - 2) \o <<[up EXCEPT !.pos = @ + up.len]>>]
ReadLength(sc, b) ==
    LET f == Top(sc) l == b[f.pos] IN
    IF l > 132 THEN GiveUp(sc, Err("unsupported"))
    ELSE SetTop(sc, [f EXCEPT !.len = IF l < 128 THEN l ELSE 0,
                              !.need = IF l < 128 THEN 0 ELSE l - 128, !.pos = @ + 1],
                IF l <= 128 THEN "value" ELSE "lenmore")
ReadLengthMore(sc, b) ==
    LET f == Top(sc) IN
    SetTop(sc, [f EXCEPT !.len = AddLength(@, b[f.pos]), !.need = @ - 1, !.pos = @ + 1],
           IF f.need = 1 THEN "value" ELSE "lenmore")
\* The value is complete: note the data object, and open it if it may have children.
ReadValue(sc, b, masks) ==
    LET f == Top(sc)
        ve == f.pos + f.len - 1
        tag == SubSeq(b, f.ts, f.te)
        masked == IsMaskedRange(b, f.pos, ve, masks)
        node == Node(tag, SubSeq(b, f.pos, ve), masked, <<>>)
        open == IsConstructed(tag) /\ ~masked /\ Len(sc.stk) - 1 < MaxDepth
        g == [f EXCEPT !.nodes = Append(@, node)]
    IN IF open
       THEN [sc EXCEPT !.mode = "tag",
                       !.stk = [@ EXCEPT ![Len(@)] = g] \o <<Frame(f.pos, ve)>>]
       ELSE SetTop(sc, [g EXCEPT !.pos = @ + f.len], "tag")
\* The end of a frame, all of which was well-formed.
Close(sc) ==
    IF Len(sc.stk) = 1 THEN [sc EXCEPT !.mode = "done"]
    ELSE LET f == Top(sc)
             up == sc.stk[Len(sc.stk) - 1]
             g == [up EXCEPT !.nodes = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.kids = f.nodes]],
                             !.pos = @ + up.len]
         IN [sc EXCEPT !.mode = "tag", !.stk = SubSeq(@, 1, Len(@) - 2) \o <<g>>]

\* One step of the machine.
ScanStep(sc, b, masks) ==
    CASE AtTag(sc) -> ReadTag(sc, b)
      [] AtTagMore(sc) -> ReadTagMore(sc, b)
      [] AtLength(sc) -> ReadLength(sc, b)
      [] AtLengthMore(sc) -> ReadLengthMore(sc, b)
      [] AtValue(sc) -> ReadValue(sc, b, masks)
      [] AtEnd(sc) -> Close(sc)
      [] AtShort(sc) -> GiveUp(sc, Err("noncompliant"))
=============================================================================
