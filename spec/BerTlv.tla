------------------------------- MODULE BerTlv -------------------------------
(***************************************************************************)
(* BER-TLV as the program reads it (EMV Book 3, Annex B): a grammar, given *)
(* as a function from bytes to a forest of data objects.  BerScanner gives *)
(* the same language as a machine that reads byte by byte.                 *)
(*                                                                         *)
(* A data object is [tag, data, masked, kids]; the data of masked ones is  *)
(* kept here, it is Annotate's business not to show it.                    *)
(*                                                                         *)
(* Deliberate deviations of the program from the standard, kept as is:     *)
(*  - LEN80: 0x80 (the indefinite form, which EMV doesn't have) is read as *)
(*    a length of zero;                                                    *)
(*  - DEPTH: constructed values are followed through MaxDepth levels.      *)
(***************************************************************************)
EXTENDS PemvText, Masking

MaxDepth == 250
BigLength == 2^20                  \* longer than any input: absorbing

IsConstructed(tag) == Bit(tag[1], 5) = 1
TagGoesOn(first) == first % 32 = 31
AddLength(acc, b) == IF acc >= BigLength THEN BigLength
                     ELSE LET v == acc * 256 + b IN IF v >= BigLength THEN BigLength ELSE v

Node(tag, data, masked, kids) == [tag |-> tag, data |-> data, masked |-> masked, kids |-> kids]
Ok(nodes) == [ok |-> TRUE, err |-> NoErr, nodes |-> nodes]
Bad(err) == [ok |-> FALSE, err |-> err, nodes |-> <<>>]

\* The index of the last byte of the tag starting at i, or 0 if it has none.
RECURSIVE TagMore(_, _, _)
TagMore(b, j, hi) == IF j > hi THEN 0 ELSE IF b[j] < 128 THEN j ELSE TagMore(b, j + 1, hi)
TagEnd(b, i, hi) == IF TagGoesOn(b[i]) THEN TagMore(b, i + 1, hi) ELSE i

\* The header at i: [ok, err, te: end of the tag, vs: start of the value, len]
HeaderBad(kind) == [ok |-> FALSE, err |-> Err(kind), te |-> 0, vs |-> 0, len |-> 0]
HeaderOk(te, vs, len) == [ok |-> TRUE, err |-> NoErr, te |-> te, vs |-> vs, len |-> len]
Header(b, i, hi) ==
    LET te == TagEnd(b, i, hi) IN
    IF te = 0 \/ te >= hi THEN HeaderBad("noncompliant")
    ELSE LET l == b[te + 1] n == l - 128 IN
         IF l < 128 THEN HeaderOk(te, te + 2, l)
         ELSE IF n > 4 THEN HeaderBad("unsupported")
         ELSE IF te + 1 + n > hi THEN HeaderBad("noncompliant")
         ELSE HeaderOk(te, te + 2 + n,
                       FoldLeft(AddLength, 0, SubSeq(b, te + 2, te + 1 + n)))

RECURSIVE BerNodes(_, _, _, _, _, _)
\* The data objects of b[i..hi], which lie at the given depth, after those in acc.
BerNodes(b, i, hi, masks, depth, acc) ==
    IF i > hi THEN Ok(acc)
    ELSE LET h == Header(b, i, hi) IN
         IF ~h.ok THEN Bad(h.err)
         ELSE IF h.len > hi - h.vs + 1 THEN Bad(Err("noncompliant"))
         ELSE LET ve == h.vs + h.len - 1
                  tag == SubSeq(b, i, h.te)
                  masked == IsMaskedRange(b, h.vs, ve, masks)
                  kids == IF IsConstructed(tag) /\ ~masked /\ depth < MaxDepth
                          THEN BerNodes(b, h.vs, ve, masks, depth + 1, <<>>).nodes
                          ELSE <<>>
              IN BerNodes(b, ve + 1, hi, masks, depth,
                          Append(acc, Node(tag, SubSeq(b, h.vs, ve), masked, kids)))

ParseBer(b, masks) == BerNodes(b, 1, Len(b), masks, 0, <<>>)

\* The children of a data object that was read by another format.
KidsOf(tag, data, masked, masks) ==
    IF IsConstructed(tag) /\ ~masked
    THEN BerNodes(data, 1, Len(data), masks, 1, <<>>).nodes ELSE <<>>

(***************************************************************************)
(* The declarative reading, against which the function and the machine are *)
(* checked: bytes are well-formed if they can be cut into complete data    *)
(* objects, and there is at most one way to do so.                         *)
(***************************************************************************)
IsTag(s) ==
    /\ Len(s) >= 1
    /\ IF Len(s) = 1 THEN ~TagGoesOn(s[1])
       ELSE TagGoesOn(s[1]) /\ (\A i \in 2..(Len(s) - 1) : s[i] >= 128) /\ s[Len(s)] < 128
\* Is s an encoding of the length n?
EncodesLength(s, n) ==
    \/ Len(s) = 1 /\ s[1] < 128 /\ s[1] = n
    \/ Len(s) = 1 /\ s[1] = 128 /\ n = 0                                  \* LEN80
    \/ Len(s) \in 2..5 /\ s[1] = 128 + Len(s) - 1
         /\ FoldLeft(AddLength, 0, Tail(s)) = n
\* Is s a complete data object with this tag and this value?
IsObject(s, tag, value) ==
    \E k \in 1..5 :
        /\ Len(s) = Len(tag) + k + Len(value)
        /\ IsTag(tag) /\ IsPrefix(tag, s)
        /\ EncodesLength(SubSeq(s, Len(tag) + 1, Len(tag) + k), Len(value))
        /\ SubSeq(s, Len(tag) + k + 1, Len(s)) = value
\* All the ways to cut s into complete data objects, as sequences of <<tag, value>>.
RECURSIVE Cuts(_)
Cuts(s) ==
    IF s = <<>> THEN { <<>> }
    ELSE UNION { { << <<SubSeq(s, 1, c[1]), SubSeq(s, c[2] + 1, c[3])>> >> \o r :
                      r \in Cuts(SubSeq(s, c[3] + 1, Len(s))) } :
                 c \in { t \in (1..Len(s)) \X (1..Len(s)) \X (1..Len(s)) :
                           /\ t[1] < t[2] /\ t[2] <= t[3]
                           /\ IsObject(SubSeq(s, 1, t[3]), SubSeq(s, 1, t[1]), SubSeq(s, t[2] + 1, t[3])) } }

(***************************************************************************)
(* An encoder, whose choices are the forms of the lengths.                 *)
(***************************************************************************)
BigEndian(n, k) == [i \in 1..k |-> (n \div (256 ^ (k - i))) % 256]
\* form 0: short; form k in 1..4: long with k bytes.  Defined if it fits.
LengthFits(n, form) == IF form = 0 THEN n < 128 ELSE (form >= 3 \/ n < 256 ^ form)
EncodeLength(n, form) == IF form = 0 THEN <<n>> ELSE <<128 + form>> \o BigEndian(n, form)
Encode(tag, value, form) == tag \o EncodeLength(Len(value), form) \o value
=============================================================================
