-------------------------- MODULE IngenicoScanner ---------------------------
(***************************************************************************)
(* The Ingenico format as a machine that reads one character per step (a   *)
(* value in one step).                                                     *)
(*   [mode, pos, emv, tag, len, fmt, nodes, err]                           *)
(* where tag and len hold the digits read so far.                          *)
(***************************************************************************)
EXTENDS Ingenico

IngStart == [mode |-> "ascii", pos |-> 1, emv |-> FALSE, tag |-> <<>>, len |-> <<>>, fmt |-> 0,
             nodes |-> <<>>, err |-> NoErr]
IngOver(sc) == sc.mode \in {"done", "rejected"}
IngResult(sc) == IF sc.mode = "done" THEN Ok(sc.nodes) ELSE Bad(sc.err)

Reject(sc, kind) == [sc EXCEPT !.mode = "rejected", !.err = Err(kind)]
More(sc, t) == sc.pos <= Len(t)

IngCheck(sc, t) == IF IsAscii(t) THEN [sc EXCEPT !.mode = "type"] ELSE Reject(sc, "noncompliant")
IngType(sc, t) ==
    IF ~More(sc, t) THEN [sc EXCEPT !.mode = "done"]
    ELSE [sc EXCEPT !.mode = "tag", !.emv = t[sc.pos] = TypeEmv, !.tag = <<>>, !.len = <<>>, !.pos = @ + 1]
IngTag(sc, t) ==
    IF ~More(sc, t) THEN Reject(sc, "noncompliant")
    ELSE LET c == t[sc.pos] IN
         IF c = Colon
         THEN IF Len(sc.tag) < 2 THEN Reject(sc, "noncompliant")
              ELSE [sc EXCEPT !.mode = "len", !.pos = @ + 1]
         ELSE IF IsHexDigit(c) THEN [sc EXCEPT !.tag = Append(@, c), !.pos = @ + 1]
         ELSE Reject(sc, "noncompliant")
IngLen(sc, t) ==
    IF ~More(sc, t) THEN Reject(sc, "noncompliant")
    ELSE LET c == t[sc.pos] IN
         IF c = Colon
         THEN IF Len(sc.len) \div 2 > 4 THEN Reject(sc, "unsupported")
              ELSE [sc EXCEPT !.mode = "fmt", !.pos = @ + 1]
         ELSE IF IsHexDigit(c) THEN [sc EXCEPT !.len = Append(@, c), !.pos = @ + 1]
         ELSE Reject(sc, "noncompliant")
IngFormat(sc, t) ==
    IF ~More(sc, t) \/ t[sc.pos] \notin {FormatText, FormatHex} THEN Reject(sc, "noncompliant")
    ELSE [sc EXCEPT !.mode = "value", !.fmt = t[sc.pos], !.pos = @ + 1]
IngValue(sc, t, masks) ==
    LET len == FieldLength(BytesOfNibbles(sc.len))
        hi == sc.pos + (IF sc.fmt = FormatHex THEN 2 * len ELSE len) - 1
    IN IF hi > Len(t) THEN Reject(sc, "noncompliant")
       ELSE LET text == SubSeq(t, sc.pos, hi)
                masked == IsMasked(text, masks)
                tag == TrimZeroes(BytesOfNibbles(sc.tag))
                data == IF sc.fmt = FormatText THEN text
                        ELSE IF masked THEN <<>> ELSE BytesOfNibbles(text)
            IN IF sc.fmt = FormatHex /\ ~masked /\ ~IsStrictHex(text) THEN Reject(sc, "noncompliant")
               ELSE [sc EXCEPT !.mode = "sep", !.pos = hi + 1,
                       !.nodes = IF sc.emv THEN Append(@, Node(tag, data, masked, KidsOf(tag, data, masked, masks)))
                                 ELSE @]
IngSeparator(sc, t) == [sc EXCEPT !.mode = "type", !.pos = @ + 1]

IngStep(sc, t, masks) ==
    CASE sc.mode = "ascii" -> IngCheck(sc, t)
      [] sc.mode = "type" -> IngType(sc, t)
      [] sc.mode = "tag" -> IngTag(sc, t)
      [] sc.mode = "len" -> IngLen(sc, t)
      [] sc.mode = "fmt" -> IngFormat(sc, t)
      [] sc.mode = "value" -> IngValue(sc, t, masks)
      [] sc.mode = "sep" -> IngSeparator(sc, t)
=============================================================================
