------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* When an observed invocation of the real program agrees with Pemv, one   *)
(* judgement per property: each looks only at what its property is about.  *)
(*                                                                         *)
(* An observation is                                                       *)
(*   class   "answer" "error" "usage" "help" "version" "mixed" "crash"     *)
(*   rc      the exit status                                               *)
(*   out     the lines of standard output, like those of PemvText          *)
(*   esc     were there escape sequences?                                  *)
(*   err     the lines of standard error                                   *)
(*   kind    what the error message is about: "size" "indivisible"         *)
(*           "nonccd" "noncompliant" "unsupported" "unrecognised" "number" *)
(*           "other" ""                                                    *)
(*   nums    the numbers in the error message                              *)
(*   format  the format line of a listing: "" "Ingenico" "BER-TLV"         *)
(*   treeok  could the output be read as a listing?                        *)
(*   tree    the data objects read from it                                 *)
(*   did     what was done besides reading files and writing its streams   *)
(* Its mates are observations of related invocations.                      *)
(***************************************************************************)
EXTENDS Pemv

(***************************************************************************)
(* Observations come with their data objects in a row, each with its depth *)
(* (rows); here they become a forest (tree).                               *)
(***************************************************************************)
RECURSIVE ForestOf(_, _, _, _)
ForestOf(rows, lo, hi, depth) ==
    LET at == SelectSeq([i \in 1..(hi - lo + 1) |-> lo + i - 1], LAMBDA i : rows[i].depth = depth) IN
    TLCEval([k \in 1..Len(at) |->
        LET x == rows[at[k]] IN
        [tag |-> x.tag, len |-> x.len, name |-> x.name, masked |-> x.masked, data |-> x.data, parsed |-> x.parsed, view |-> x.view,
         kids |-> ForestOf(rows, at[k] + 1, IF k = Len(at) THEN hi ELSE at[k + 1] - 1, depth + 1)]])
WithTree(o) == [class |-> o.class, rc |-> o.rc, out |-> o.out, esc |-> o.esc, err |-> o.err, kind |-> o.kind, nums |-> o.nums,
                format |-> o.format, did |-> o.did, treeok |-> o.treeok, tree |-> ForestOf(o.rows, 1, Len(o.rows), 0)]

(***************************************************************************)
(* The expected result                                                     *)
(***************************************************************************)
Class == IF err.kind = "usage" THEN "usage"
         ELSE IF err # NoErr THEN "error"
         ELSE IF out = HelpLines THEN "help"
         ELSE IF out = VersionLines THEN "version"
         ELSE "answer"
IsTlv == Op \in TlvOperations
Listed == Class = "answer" /\ IsTlv
\* Which formats can be read, whatever becomes of the values?
IngenicoReads == Ing!ParseIngenico(Arg, Masks(set)).ok
BerReads == Ber!ParseBer(HexBytes(Arg), Masks(set)).ok
Reads == CASE Op = "ber" -> BerReads
           [] Op = "ingenico" -> IngenicoReads
           [] Op = "auto" -> IngenicoReads \/ BerReads

\* The data objects as they were read, and everything that's wrong with their values.
RawForest == IF Op = "ingenico" \/ (Op = "auto" /\ IngenicoReads) THEN Ing!ParseIngenico(Arg, Masks(set)).nodes
             ELSE Ber!ParseBer(HexBytes(Arg), Masks(set)).nodes
RECURSIVE Undecodable(_)
Undecodable(ns) ==
    UNION { LET x == ns[i]
                hex == HexOf(x.tag)
                d == Decode(hex, x.data)
            IN (IF ~x.masked /\ hex \in DecodableTags /\ ~d.ok /\ ~Tolerated(hex, d.err) THEN {d.err} ELSE {}) \cup Undecodable(x.kids)
            : i \in 1..Len(ns) }
\* The errors that may be reported; which one of several comes first is left open.
Errors == IF IsTlv /\ Reads THEN Undecodable(RawForest) ELSE {err}
SizeErrors == {"exactly", "atleast"}
Told(o, e) == IF e.kind \in SizeErrors THEN o.kind = "size" /\ o.nums = <<e.expected, e.found>> ELSE o.kind = e.kind
ErrorTold(o) == o.class = "error" /\ o.out = <<>> /\ \E e \in Errors : Told(o, e)

PlainLines(lines) == TLCEval([i \in 1..Len(lines) |-> [n |-> lines[i].n, t |-> TextOf(lines[i])]])

(***************************************************************************)
(* Data objects of either side in one form, restricted to some aspects.    *)
(***************************************************************************)
BagOf(s) == TLCEval(LET c == TLCEval(s) IN [x \in { c[i] : i \in 1..Len(c) } |-> Cardinality({ i \in 1..Len(c) : c[i] = x })])

RECURSIVE Expected(_)
Expected(ns) == TLCEval(
    [i \in 1..Len(ns) |->
        [tag |-> ns[i].tag, len |-> IF ns[i].masked THEN -1 ELSE Len(ns[i].data), name |-> ns[i].name,
         masked |-> ns[i].masked, data |-> ns[i].data, parsed |-> ns[i].parsed,
         view |-> PlainLines(ns[i].view), kids |-> Expected(ns[i].kids)]])

\* (C03 is about a certain depth.)
DepthJudged == 200
RECURSIVE Aspects(_, _, _)
Aspects(ns, what, depth) ==
    LET some(x, a, none) == IF a \in what THEN x ELSE none
        rows == TLCEval([i \in 1..Len(ns) |->
           [tag |-> ns[i].tag,
            len |-> some(ns[i].len, "len", 0),
            name |-> some(ns[i].name, "name", ""),
            masked |-> some(ns[i].masked, "masked", FALSE),
            data |-> some(ns[i].data, "data", <<>>),
            parsed |-> some(ns[i].parsed, "parsed", FALSE),
            view |-> some(ns[i].view, "view", <<>>),
            maskedname |-> some(IF ns[i].masked THEN ns[i].name ELSE "", "maskedname", ""),
            kids |-> IF "kids" \in what /\ depth > 0 THEN Aspects(ns[i].kids, what, depth - 1) ELSE <<>>]])
    IN IF "order" \in what THEN rows ELSE BagOf(rows)
\* The listing was expected and is there, and they agree in these aspects.
SameListing(o, what) ==
    /\ o.class = "answer" /\ o.treeok
    /\ Aspects(o.tree, what, DepthJudged) = Aspects(Expected(nodes), what, DepthJudged)
SameOutcome(o) == o.class = Class

\* All data objects of a forest, children after their parents.
RECURSIVE AllOf(_)
AllOf(ns) == TLCEval(Concat(TLCEval([i \in 1..Len(ns) |-> <<ns[i]>> \o AllOf(ns[i].kids)])))

(***************************************************************************)
(* Diagrams.  The text of a line is cut at its corner.                     *)
(***************************************************************************)
CornerAt(t) == LET ks == { k \in 1..Len(t) : SubSeq(t, k, k) = Corner } IN
               IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
IsExplanation(line) == CornerAt(line.t) # 0
Explanation(line) == SubSeq(line.t, CornerAt(line.t) + 2, Len(line.t))
Arms(line) == SubSeq(line.t, 1, CornerAt(line.t))
Explanations(lines) == LET e == SelectSeq(lines, IsExplanation) IN [i \in 1..Len(e) |-> Explanation(e[i])]
IsBits(line) == LET t == line.t IN
    Len(t) >= 8 /\ \A k \in 1..Len(t) : SubSeq(t, k, k) \in {"0", "1", " "}
BitRows(lines) == LET e == SelectSeq(lines, IsBits) IN [i \in 1..Len(e) |-> e[i].t]
IsBracket(line) == LET t == line.t IN
    Len(t) >= 1 /\ \A k \in 1..Len(t) : SubSeq(t, k, k) \in {"│", "├", "─", "┘", " "}
\* What a diagram says and what it looks like.
Meaning(lines) == [bits |-> BitRows(lines), says |-> Explanations(lines)]

\* The geometry of a diagram, judged by the fields that it shows.
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Says(f, e) == IF f.coding = "flag" THEN e = f.text ELSE StartsWith(e, f.text)
WellDrawn(fields, n, lines) ==
    LET says == Explanations(lines)
        shown == SelectSeq(fields, LAMBDA f : \E k \in 1..Len(says) : Says(f, says[k]))
        places == [i \in 1..Len(shown) |-> [o |-> Offset(shown[i], n), w |-> shown[i].w]]
        wide == \E i \in 1..Len(shown) : shown[i].w > 1
        known == \A k \in 1..Len(says) : \E j \in 1..Len(fields) : Says(fields[j], says[k])
        inorder == Len(says) = Len(shown) /\ \A k \in 1..Len(says) : Says(shown[Len(shown) + 1 - k], says[k])
        bars(k) == AtColumns([i \in 1..k |->
                      <<Column(places[i].o, n), 1, IF i = k THEN Corner ELSE Bar>>])
        expected == (IF wide THEN << TextOf(BracketLine(places, n)) >> ELSE <<>>)
                    \o [k \in 1..Len(shown) |-> bars(Len(shown) + 1 - k)]
        drawn == SelectSeq(lines, LAMBDA l : IsExplanation(l) \/ IsBracket(l))
        found == [k \in 1..Len(drawn) |-> IF IsExplanation(drawn[k]) THEN Arms(drawn[k]) ELSE drawn[k].t]
    IN known /\ inorder => found = expected

FieldsOfOp == [tvr |-> TvrFields, tsi |-> TsiFields, cvr |-> CvrFields, cvmresults |-> CvmResultFields]
FieldsOfTag == ("95" :> TvrFields) @@ ("9F0D" :> TvrFields) @@ ("9F0E" :> TvrFields) @@ ("9F0F" :> TvrFields)
               @@ ("9B" :> TsiFields) @@ ("9F33" :> TermCapFields) @@ ("9F40" :> AddTermCapFields)
               @@ ("9F34" :> CvmResultFields)
BitfieldTags == DOMAIN FieldsOfTag

\* The views of the data objects with these tags, in order of the listing.
ViewsOf(ns, tags) ==
    LET all == TLCEval(SelectSeq(AllOf(ns), LAMBDA x : HexOf(x.tag) \in tags)) IN
    TLCEval([i \in 1..Len(all) |-> [tag |-> HexOf(all[i].tag), n |-> Len(all[i].data), view |-> all[i].view]])

\* IAD: the part that isn't diagram
Undrawn(lines) == SelectSeq(lines, LAMBDA l : ~IsExplanation(l) /\ ~IsBracket(l))
\* Its two diagrams: the lines from each row of bits to the next line that isn't drawn.
RECURSIVE DrawnFrom(_, _)
DrawnFrom(lines, i) == IF i > Len(lines) \/ ~(IsExplanation(lines[i]) \/ IsBracket(lines[i])) THEN <<>>
                       ELSE <<lines[i]>> \o DrawnFrom(lines, i + 1)
DiagramsOf(lines) ==
    LET rows == SelectSeq([i \in 1..Len(lines) |-> i], LAMBDA i : IsBits(lines[i])) IN
    [k \in 1..Len(rows) |-> <<lines[rows[k]]>> \o DrawnFrom(lines, rows[k] + 1)]

WantedLines == PlainLines(out)

(***************************************************************************)
(* The judgements                                                          *)
(***************************************************************************)
BerObjects(o) == Listed => SameListing(o, {"len", "data", "kids"})
Rejection(o) ==
    IsTlv /\ err.kind \notin {"usage", "config"} =>
                IF ~Reads THEN o.rc = 0 /\ ErrorTold(o)
                ELSE IF Class = "answer" THEN o.class = "answer"
                ELSE o.class \in {"answer", "error"}
Opened(o) == Listed => SameListing(o, {"len", "data", "kids"})
MaskedOnes(o) == SameOutcome(o) /\ (Listed => SameListing(o, {"masked", "kids"}))
\* mates: the same block before something in it was masked
RECURSIVE HasMasked(_), AsBefore(_, _)
HasMasked(ns) == \E i \in 1..Len(ns) : ns[i].masked \/ HasMasked(ns[i].kids)
AsBefore(now, before) ==
    /\ Len(now) = Len(before)
    /\ \A i \in 1..Len(now) : \/ now[i].masked
                              \/ now[i] = before[i]
                              \/ now[i].tag = before[i].tag /\ HasMasked(now[i].kids) /\ AsBefore(now[i].kids, before[i].kids)
MaskedHidden(o, mates) ==
    /\ SameOutcome(o)
    /\ Listed => SameListing(o, {"len", "masked", "data", "parsed", "maskedname", "kids"})
    /\ \A k \in 1..Len(mates) : mates[k].class = "answer" =>
          o.class = "answer" /\ (o.treeok /\ mates[k].treeok => AsBefore(o.tree, mates[k].tree))
\* mates: the same block given to --ingenico-tlv and to --ber-tlv
PlainFormat(name) == [i \in 1..2 |-> Unstyled(FormatLines(name)[i])]
AutoAgrees(o, mates) ==
    LET agree(m, name) == /\ o.class = m.class
                          /\ o.class = "answer" => o.out = PlainFormat(name) \o m.out
                          /\ o.class # "answer" => o.out = <<>> /\ o.err = m.err
    IN IF IngenicoReads THEN agree(mates[1], "Ingenico")
       ELSE IF BerReads THEN agree(mates[2], "BER-TLV")
       ELSE o.class = "error" /\ o.kind = "unrecognised"
\* mates: the same block with sorting off
RECURSIVE TagsOnly(_)
TagsOnly(ns) == TLCEval([i \in 1..Len(ns) |-> [tag |-> ns[i].tag, kids |-> TagsOnly(ns[i].kids)]])
SortedWell(o, mates) ==
    /\ SameOutcome(o)
    /\ Listed => /\ o.treeok /\ mates[1].treeok
                 /\ o.tree = IF Sorted(set) THEN SortForest(mates[1].tree) ELSE mates[1].tree
                 /\ TagsOnly(o.tree) = TagsOnly(nodes)
SettingsInForce(o) ==
    /\ SameOutcome(o)
    /\ Listed => /\ SameListing(o, {"masked", "kids", "order"})
                 /\ o.esc = Coloured(set, inp)
    /\ Class = "answer" => o.esc = Coloured(set, inp)
Annotated(x) == x.name \in { UndecodedName[h] : h \in DOMAIN UndecodedName }
Identified(o) ==
    IF Op = "identify" THEN SameOutcome(o) /\ (Class = "answer" => PlainLines(o.out) = WantedLines)
    ELSE Listed => LET want == TLCEval(SelectSeq(AllOf(Expected(nodes)), LAMBDA x : ~Annotated(x)))
                       have == TLCEval(SelectSeq(AllOf(o.tree), LAMBDA x : ~Annotated(x)))
                       names(s) == { <<s[i].tag, s[i].name>> : i \in 1..Len(s) }
                   IN o.class = "answer" /\ o.treeok /\ names(have) = names(want)
\* mates: [tag, data, obs] for values that have an operation of their own
MateOf(mates, x) == { k \in 1..Len(mates) : mates[k].tag = x.tag /\ mates[k].data = x.data }
DecodedLikewise(o, mates) ==
    /\ SameOutcome(o)
    /\ Class = "error" /\ err.kind # "config" => ErrorTold(o)
    /\ Listed =>
         /\ o.treeok
         /\ LET have == TLCEval(AllOf(o.tree))
                want == TLCEval(AllOf(Expected(nodes)))
                rows(all) == BagOf([i \in 1..Len(all) |->
                               LET x == all[i] IN
                               <<x.tag, x.data, x.parsed, IF Annotated(x) THEN x.name ELSE "",
                                 IF x.parsed /\ MateOf(mates, x) = {} THEN x.view ELSE <<>> >>])
            IN /\ rows(have) = rows(want)
               /\ \A i \in 1..Len(have) :
                     have[i].parsed => \A k \in MateOf(mates, have[i]) :
                        mates[k].obs.class = "answer" /\ have[i].view = PlainLines(mates[k].obs.out)
BitsExplained(o) ==
    /\ SameOutcome(o)
    /\ Class = "answer" =>
         IF IsTlv
         THEN LET meanings(ns) == LET vs == ViewsOf(ns, BitfieldTags \cup {"9F10"}) IN
                                  BagOf([i \in 1..Len(vs) |-> <<vs[i].tag, Meaning(vs[i].view)>>])
              IN o.treeok /\ meanings(o.tree) = meanings(Expected(nodes))
         ELSE Meaning(PlainLines(o.out)) = Meaning(WantedLines)
IadDrawn(lines) == LET ds == DiagramsOf(lines) IN
                   Len(ds) = 2 => WellDrawn(CciFields, 1, ds[1]) /\ WellDrawn(CvrFields, 5, ds[2])
Drawn(o) ==
    Class = "answer" /\ o.class = "answer" /\ Op \in TlvOperations \cup DOMAIN FieldsOfOp \cup {"iad"} =>
         IF IsTlv
         THEN o.treeok /\ LET vs == ViewsOf(o.tree, BitfieldTags) IN
                 /\ \A i \in 1..Len(vs) : WellDrawn(FieldsOfTag[vs[i].tag], vs[i].n, vs[i].view)
                 /\ LET is == ViewsOf(o.tree, {"9F10"}) IN \A i \in 1..Len(is) : IadDrawn(is[i].view)
         ELSE IF Op = "iad"
         THEN IadDrawn(PlainLines(o.out))
         ELSE WellDrawn(FieldsOfOp[Op], Len(HexBytes(Arg)), PlainLines(o.out))
\* The whole text, be it of an operation or of the data objects with some tags.
SameText(o, tags) ==
    /\ SameOutcome(o)
    /\ Class = "answer" =>
         IF IsTlv THEN o.treeok /\ BagOf(ViewsOf(o.tree, tags)) = BagOf(ViewsOf(Expected(nodes), tags))
         ELSE PlainLines(o.out) = WantedLines
CvmResultsShown(o) ==
    /\ SameOutcome(o)
    /\ Class = "answer" =>
         IF IsTlv
         THEN LET m(ns) == LET vs == ViewsOf(ns, {"9F34"}) IN BagOf([i \in 1..Len(vs) |-> Meaning(vs[i].view)])
              IN o.treeok /\ m(o.tree) = m(Expected(nodes))
         ELSE Meaning(PlainLines(o.out)) = Meaning(WantedLines)
IadDecoded(o) ==
    /\ SameOutcome(o)
    /\ Class = "error" /\ err.kind = "nonccd" => o.kind = "nonccd"
    /\ Class = "answer" =>
         IF IsTlv
         THEN LET rows(ns) == LET s == TLCEval(SelectSeq(AllOf(ns), LAMBDA x : x.tag = <<159, 16>>)) IN
                     BagOf([i \in 1..Len(s) |-> <<s[i].data, s[i].parsed, s[i].name, Undrawn(s[i].view), Meaning(s[i].view)>>])
              IN o.treeok /\ rows(o.tree) = rows(Expected(nodes))
         ELSE LET have == PlainLines(o.out) IN Undrawn(have) = Undrawn(WantedLines) /\ Meaning(have) = Meaning(WantedLines)
CodedTags == {"8A", "9C", "9F35", "9F39"}
CodesNamed(o) ==
    /\ SameOutcome(o)
    /\ Listed =>
         LET rows(ns) == LET s == TLCEval(SelectSeq(AllOf(ns), LAMBDA x : HexOf(x.tag) \in CodedTags)) IN
                BagOf([i \in 1..Len(s) |-> <<s[i].tag, s[i].data, s[i].parsed, s[i].name, s[i].view>>])
         IN o.treeok /\ rows(o.tree) = rows(Expected(nodes))
\* A listing is laid out as this specification lays out the data objects that can be read from it.
RECURSIVE Readable(_)
Readable(ns) == TLCEval(
    [i \in 1..Len(ns) |->
        [tag |-> ns[i].tag, data |-> ns[i].data, masked |-> ns[i].masked, name |-> ns[i].name, parsed |-> ns[i].parsed,
         view |-> [k \in 1..Len(ns[i].view) |-> PlainLine(ns[i].view[k].n, ns[i].view[k].t)],
         kids |-> Readable(ns[i].kids)]])
LaidOut(o) ==
    Listed => /\ o.class = "answer" /\ o.treeok
              /\ PlainLines(o.out) = PlainLines(FormatLines(o.format) \o ForestLines(Readable(o.tree), 0))
              /\ LET all == AllOf(o.tree) IN \A i \in 1..Len(all) : ~all[i].masked => all[i].len = Len(all[i].data)
\* mates: the same digits, written in another way
DigitsOnly(o, mates) ==
    /\ \A k \in 1..Len(mates) : o.class = mates[k].class /\ o.out = mates[k].out /\ o.err = mates[k].err
    /\ Op = "identify" => LET shown(ls) == SelectSeq(PlainLines(ls), LAMBDA l : StartsWith(l.t, "Tag:")) IN
                          shown(o.out) = shown(out)
    /\ Op = "ber" => BerObjects(o)
\* mates: the same invocation without colours
OnlyDecorated(o, mates) ==
    /\ o.esc = (Coloured(set, inp) /\ Class = "answer" /\ out # <<>>)
    /\ \A k \in 1..Len(mates) : /\ o.class = mates[k].class /\ o.err = mates[k].err
                                /\ PlainLines(o.out) = PlainLines(mates[k].out)
    /\ Class = "answer" /\ o.class = "answer" =>
         \A i \in 1..Len(o.out) : i <= Len(out) /\ TextOf(o.out[i]) = TextOf(out[i])
                                     => o.out[i].s = Output[i].s
AnswerXorMessage(o) ==
    /\ o.class # "crash"
    /\ o.rc \in {0, 2}
    /\ o.out # <<>> => o.err = <<>>
    /\ o.out = <<>> /\ o.err = <<>> => Listed /\ nodes = <<>>
\* mates: the same invocation with the operation's long name
OneOperation(o, mates) ==
    /\ SameOutcome(o)
    /\ (o.rc = 2) = (rc = 2)
    /\ Class = "usage" => o.out = <<>> /\ o.rc = 2
    /\ \A k \in 1..Len(mates) : o.class = mates[k].class /\ o.out = mates[k].out /\ o.err = mates[k].err
    /\ Class = "answer" /\ out # <<>> => o.out # <<>> /\ TextOf(o.out[1]) = TextOf(out[1])
OfSize == SizeErrors \cup {"indivisible"}
SizesChecked(o) ==
    /\ Class = "error" /\ (\E e \in Errors : e.kind \in OfSize) => ErrorTold(o)
    /\ (Class # "error" \/ \A e \in Errors : e.kind \notin OfSize) => o.kind \notin {"size", "indivisible"} /\ o.class # "crash"
\* mates: the same invocation with nothing around it
OnlyInputsMatter(o, mates) ==
    /\ o.did = <<>>
    /\ \A k \in 1..Len(mates) :
          /\ o.class = mates[k].class /\ o.rc = mates[k].rc
          /\ o.out = mates[k].out
          /\ o.class # "usage" => o.err = mates[k].err        \* (which may be wrapped to the width of a terminal)

Judgement(prop, o, mates) ==
    CASE prop = "C01" -> BerObjects(o)
      [] prop = "C02" -> Rejection(o)
      [] prop = "C03" -> Opened(o)
      [] prop = "C04" -> MaskedOnes(o)
      [] prop = "C05" -> MaskedHidden(o, mates)
      [] prop = "C06" -> BerObjects(o)
      [] prop = "C07" -> Rejection(o)
      [] prop = "C08" -> AutoAgrees(o, mates)
      [] prop = "C09" -> SortedWell(o, mates)
      [] prop = "C10" -> SettingsInForce(o)
      [] prop = "C11" -> Identified(o)
      [] prop = "C12" -> DecodedLikewise(o, mates)
      [] prop = "C13" -> BitsExplained(o)
      [] prop = "C14" -> Drawn(o)
      [] prop = "C15" -> SameText(o, {"8E"})
      [] prop = "C16" -> CvmResultsShown(o)
      [] prop = "C17" -> IadDecoded(o)
      [] prop = "C18" -> SameText(o, {"5F30"})
      [] prop = "C19" -> CodesNamed(o)
      [] prop = "C20" -> LaidOut(o)
      [] prop = "C21" -> DigitsOnly(o, mates)
      [] prop = "C22" -> OnlyDecorated(o, mates)
      [] prop = "C23" -> AnswerXorMessage(o)
      [] prop = "C24" -> OneOperation(o, mates)
      [] prop = "C25" -> SizesChecked(o)
      [] prop = "C26" -> OnlyInputsMatter(o, mates)
      [] prop = "ALL" -> /\ o.rc = rc /\ o.class = Class
                         /\ Class \notin {"help", "version"} => o.out = Output
                         /\ Class = "error" /\ err.kind \notin {"config"} => o.err = <<ErrText(err)>>
\* mates are observations, or [tag, data, obs] (C12)
Judge(prop, o, mates) ==
    Judgement(prop, WithTree(o), [k \in 1..Len(mates) |-> IF prop = "C12" THEN mates[k] ELSE WithTree(mates[k])])
=============================================================================
