------------------------------ MODULE Ingenico ------------------------------
(***************************************************************************)
(* Ingenico's proprietary TLV format, as the program reads it:             *)
(*                                                                         *)
(*   block  ::= ( object sep )* [ object ]       sep: any one character    *)
(*   object ::= type hex ':' hex ':' ( 'a' text | 'h' hex )                *)
(*                                                                         *)
(* The first hex is the tag (leading zero bytes don't count), the second   *)
(* the number of bytes of the value.  Only objects of type 'T' are listed. *)
(*                                                                         *)
(* Deliberate deviation of the program from the obvious, kept as is:       *)
(*  - ODD: an unpaired last digit of a tag or length is dropped, so the    *)
(*    length "8" is zero and "108" is sixteen.                             *)
(***************************************************************************)
EXTENDS BerTlv

Colon == 58
TypeEmv == 84                      \* T
FormatText == 97                   \* a
FormatHex == 104                   \* h

RECURSIVE TrimZeroes(_)
TrimZeroes(tag) == IF Len(tag) > 1 /\ tag[1] = 0 THEN TrimZeroes(Tail(tag)) ELSE tag
FieldLength(bytes) == FoldLeft(AddLength, 0, bytes)

\* The index of the first colon in t[i..], or 0.
RECURSIVE FindColon(_, _)
FindColon(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = Colon THEN i ELSE FindColon(t, i + 1)

RECURSIVE IngNodes(_, _, _, _)
IngNodes(t, i, masks, acc) ==
    IF i > Len(t) THEN Ok(acc)
    ELSE LET bad == Bad(Err("noncompliant"))
             c1 == FindColon(t, i + 1)
             tagtext == SubSeq(t, i + 1, c1 - 1)
             tag == TrimZeroes(BytesOfNibbles(tagtext))
             c2 == FindColon(t, c1 + 1)
             lentext == SubSeq(t, c1 + 1, c2 - 1)
             lenbytes == BytesOfNibbles(lentext)
             len == FieldLength(lenbytes)
             fmt == t[c2 + 1]
             chars == IF fmt = FormatHex THEN 2 * len ELSE len
             lo == c2 + 2
             hi == lo + chars - 1
         IN IF c1 = 0 \/ ~IsStrictHex(tagtext) \/ Len(tagtext) < 2 THEN bad
            ELSE IF c2 = 0 \/ ~IsStrictHex(lentext) THEN bad
            ELSE IF Len(lenbytes) > 4 THEN Bad(Err("unsupported"))
            ELSE IF c2 = Len(t) \/ fmt \notin {FormatText, FormatHex} THEN bad
            ELSE IF hi > Len(t) THEN bad
            ELSE LET masked == IsMaskedRange(t, lo, hi, masks)
                     text == SubSeq(t, lo, hi)
                     data == IF fmt = FormatText THEN text
                             ELSE IF masked THEN <<>> ELSE BytesOfNibbles(text)
                     next == IF t[i] = TypeEmv
                             THEN Append(acc, Node(tag, data, masked, KidsOf(tag, data, masked, masks)))
                             ELSE acc
                 IN IF fmt = FormatHex /\ ~masked /\ ~IsStrictHex(text) THEN bad
                    ELSE IngNodes(t, hi + 2, masks, next)

IsAscii(t) == \A i \in 1..Len(t) : t[i] < 128
ParseIngenico(t, masks) ==
    IF ~IsAscii(t) THEN Bad(Err("noncompliant")) ELSE IngNodes(t, 1, masks, <<>>)
=============================================================================
