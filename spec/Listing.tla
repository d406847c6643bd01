------------------------------- MODULE Listing ------------------------------
(***************************************************************************)
(* Sorting a forest, and writing it down.                                  *)
(***************************************************************************)
EXTENDS Annotate

\* Lexicographic order of byte sequences.
RECURSIVE TagLess(_, _, _)
TagLess(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE TagLess(a, b, i + 1)
Before(a, b) == TagLess(a, b, 1)

RECURSIVE SortForest(_)
\* Every level in order of the tags, equal ones as they were.
SortForest(nodes) ==
    LET keyed == [i \in 1..Len(nodes) |-> <<nodes[i].tag, i>>]
        order == SortSeq(keyed, LAMBDA p, q : Before(p[1], q[1]) \/ (p[1] = q[1] /\ p[2] < q[2]))
    IN TLCEval([i \in 1..Len(nodes) |->
          LET node == nodes[order[i][2]] IN [node EXCEPT !.kids = SortForest(@)]])

(***************************************************************************)
(* The layout                                                              *)
(***************************************************************************)
DumpWidth == 16
DumpLine(bytes, lo, hi) ==
    LET part == SubSeq(bytes, lo, hi) IN
    PlainLine(0, HexSpaced(part) \o Times("   ", DumpWidth - Len(part)) \o "  "
                 \o Cat([i \in 1..Len(part) |-> ReadOut[part[i]]]))
Dump(bytes) ==
    [k \in 1..((Len(bytes) + DumpWidth - 1) \div DumpWidth) |->
        DumpLine(bytes, (k - 1) * DumpWidth + 1, IF k * DumpWidth < Len(bytes) THEN k * DumpWidth ELSE Len(bytes))]

CountText(n) == Dec(n) \o (IF n = 1 THEN " byte" ELSE " bytes")
TagLine(node) ==
    Line(0, << <<"h", "Tag:">>, <<"", " 0x">>, <<"b", HexOf(node.tag)>>,
               <<"", " - " \o (IF node.masked THEN "?? bytes" ELSE CountText(Len(node.data)))
                     \o " - " \o node.name>> >>)
HeadLine(text) == Line(0, << <<"h", text>> >>)
ObjectLines(node) ==
    << TagLine(node) >>
    \o (IF node.masked THEN << HeadLine("* Masked *") >>
        ELSE IF node.data = <<>> THEN <<>>
        ELSE << HeadLine("Raw:") >> \o Indent(Dump(node.data), 1))
    \o (IF node.parsed THEN << HeadLine("Parsed:") >> \o Indent(node.view, 1) ELSE <<>>)

RECURSIVE ForestLines(_, _)
ForestLines(nodes, d) == TLCEval(
    Concat([i \in 1..Len(nodes) |->
        (IF i = 1 THEN <<>> ELSE << BlankLine >>)
        \o Indent(ObjectLines(nodes[i]), d)
        \o (IF nodes[i].kids = <<>> THEN <<>>
            ELSE Indent(<< HeadLine("Constructed Data Object's Child Tags:") >>, d)
                 \o ForestLines(nodes[i].kids, d + 1))]))

FormatLines(format) ==
    IF format = "" THEN <<>>
    ELSE << Line(0, << <<"h", "TLV Format: ">>, <<"", format>> >>), BlankLine >>

IdentifyLines(tag) ==
    << Line(0, << <<"h", "Name:">>, <<"", "             " \o TagName(tag)>> >>),
       Line(0, << <<"h", "Tag:">>, <<"", "              0x">>, <<"b", HexOf(tag)>> >>),
       Line(0, << <<"h", "Class:">>, <<"", "            " \o TagClass(tag)>> >>),
       Line(0, << <<"h", "Data Object Type:">>, <<"", " " \o TagType(tag)>> >>) >>
Identify(tag) == IF tag = <<>> THEN Unseen(ErrBytes("atleast", 1, 0)) ELSE Seen(IdentifyLines(tag))
=============================================================================
