------------------------------ MODULE Annotate ------------------------------
(***************************************************************************)
(* From a forest of data objects to one with names and decoded values, or  *)
(* to the error of the first value that can't be decoded.                  *)
(*                                                                         *)
(* An annotated object is [tag, data, masked, name, parsed, view, kids];   *)
(* a masked one has lost its data.                                         *)
(***************************************************************************)
EXTENDS Values

DecodableTags == {"5F30", "8A", "8E", "95", "9B", "9C", "9F0D", "9F0E", "9F0F", "9F10", "9F33", "9F34",
                  "9F35", "9F39", "9F40"}
Decode(hex, b) ==
    CASE hex = "5F30" -> ServiceCodeBcd(b)
      [] hex = "8A" -> ResponseCode(b)
      [] hex = "8E" -> CvmList(b)
      [] hex = "95" -> Tvr(b)
      [] hex = "9B" -> Tsi(b)
      [] hex = "9C" -> Coded(TransactionTable, b)
      [] hex = "9F0D" -> Iac("default", b)
      [] hex = "9F0E" -> Iac("denial", b)
      [] hex = "9F0F" -> Iac("online", b)
      [] hex = "9F10" -> Iad(b)
      [] hex = "9F33" -> TermCap(b)
      [] hex = "9F34" -> CvmResults(b)
      [] hex = "9F35" -> Coded(TerminalTable, b)
      [] hex = "9F39" -> Coded(PosEntryTable, b)
      [] hex = "9F40" -> AddTermCap(b)
      [] OTHER -> Seen(<<>>)

\* Values of these tags may be left undecoded, with another name.
Tolerated(hex, err) ==
    \/ hex \in {"8A", "9C"} /\ err.kind = "unrecognised"
    \/ hex = "9F10" /\ err.kind = "nonccd"
UndecodedName ==
    ("8A" :> "Authorisation Response Code (Unrecognised - likely payment system-specific)") @@
    ("9C" :> "Transaction Type (Unrecognised - likely payment system-specific)") @@
    ("9F10" :> "Issuer Application Data (Not CCD-Compliant)")

ANode(node, name, parsed, view, kids) ==
    [tag |-> node.tag, data |-> IF node.masked THEN <<>> ELSE node.data, masked |-> node.masked,
     name |-> name, parsed |-> parsed, view |-> view, kids |-> kids]

Ok2(nodes) == [ok |-> TRUE, err |-> NoErr, nodes |-> nodes]
Bad2(err) == [ok |-> FALSE, err |-> err, nodes |-> <<>>]

RECURSIVE AnnotateNodes(_, _, _)
\* nodes[i..], after those in acc; stops at the first error, parents first.
AnnotateNodes(nodes, i, acc) ==
    IF i > Len(nodes) THEN Ok2(acc)
    ELSE LET node == nodes[i]
             hex == HexOf(node.tag)
             name == TagName(node.tag)
             typed == hex \in DecodableTags /\ ~node.masked
             d == Decode(hex, node.data)
             spared == ~d.ok /\ Tolerated(hex, d.err)
             kids == AnnotateNodes(node.kids, 1, <<>>)
         IN IF typed /\ ~d.ok /\ ~spared THEN Bad2(d.err)
            ELSE IF ~kids.ok THEN Bad2(kids.err)
            ELSE AnnotateNodes(nodes, i + 1, Append(acc,
                    ANode(node, IF typed /\ spared THEN UndecodedName[hex] ELSE name,
                          typed /\ d.ok, IF typed THEN d.view ELSE <<>>, kids.nodes)))
=============================================================================
