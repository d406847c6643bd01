----------------------------- MODULE MC_Scanner ------------------------------
(***************************************************************************)
(* The scanner machines of both formats on every input over a few bytes    *)
(* that matter.  They are compared, at the end of each behaviour, to the   *)
(* grammars as functions and to the declarative readings: the sets of all  *)
(* ways to cut an input into complete data objects.                        *)
(***************************************************************************)
EXTENDS IngenicoScanner, FiniteSetsExt

Ber == INSTANCE BerScanner

CONSTANTS Longest,           \* longest input
          Which              \* "ber", "ingenico"

\* P p, long tags, T, lengths, long lengths, a masking character
BerAlphabet == {0, 1, 2, 80, 112, 31, 129, 130}
\* T : 0 1 5 a h x
IngAlphabet == {84, 58, 48, 49, 97, 104, 120}
\* Ingenico data objects are long: these pieces stand for several characters.
IngPieces == { <<84>>, <<83>>, <<58>>, <<48, 49>>, <<53, 48>>, <<97>>, <<104>>, <<52, 49>>, <<48>>, <<120>> }

Strings(S, n) == UNION { [1..k -> S] : k \in 0..n }
BerInputs(z) == Strings(BerAlphabet, Longest)
IngInputs(z) == { Concat(s) : s \in Strings(IngPieces, Longest) }
                \cup { <<84, 53, 48, 58, 48, 49, 58>> \o s : s \in Strings(IngAlphabet, Longest - 1) }
                \cup { <<84, 53, 48, 58, 48, 50, 58, 97, 42, 42>> \o Concat(s) : s \in Strings(IngPieces, Longest - 1) }
                \cup { <<83, 49, 49, 58, 48, 48, 58, 104, 32>> \o Concat(s) : s \in Strings(IngPieces, Longest - 1) }

VARIABLES text, masks, sc
vars == <<text, masks, sc>>

Init == \/ /\ Which = "ber"
           /\ text \in BerInputs(0) /\ masks \in {{42}, {1, 2}}
           /\ sc = Ber!ScanStart(text)
        \/ /\ Which = "ingenico"
           /\ text \in IngInputs(0) /\ masks \in {{42}, {1, 49}}
           /\ sc = IngStart
Over == IF Which = "ber" THEN Ber!ScanOver(sc) ELSE IngOver(sc)
Step == /\ ~Over
        /\ sc' = IF Which = "ber" THEN Ber!ScanStep(sc, text, masks) ELSE IngStep(sc, text, masks)
        /\ UNCHANGED <<text, masks>>
Next == Step \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Result == IF Which = "ber" THEN Ber!ScanResult(sc) ELSE IngResult(sc)

\* The machine reads what the function reads.
MachineIsGrammar ==
    Over => Result = IF Which = "ber" THEN ParseBer(text, masks) ELSE ParseIngenico(text, masks)

Pairs(nodes) == [i \in 1..Len(nodes) |-> <<nodes[i].tag, nodes[i].data>>]
\* C01, C02: read if and only if there is a way to cut it, then that one, which is the only one.
RECURSIVE KidsAreCuts(_)
KidsAreCuts(nodes) == \A i \in 1..Len(nodes) :
    LET n == nodes[i] IN
    /\ IF IsConstructed(n.tag) /\ ~n.masked
       THEN IF Cuts(n.data) = {} THEN n.kids = <<>> ELSE Cuts(n.data) = { Pairs(n.kids) }
       ELSE n.kids = <<>>
    /\ KidsAreCuts(n.kids)
BerIsCuts ==
    Over /\ Which = "ber" => IF Result.ok THEN Cuts(text) = { Pairs(Result.nodes) } /\ KidsAreCuts(Result.nodes)
                             ELSE Cuts(text) = {} /\ Result.nodes = <<>>

(***************************************************************************)
(* Ingenico, declaratively.  An object is <<emv, tag, value, masked>>.     *)
(***************************************************************************)
IsIngObject(s, c1, c2) ==          \* with its colons at c1 and c2
    /\ c1 > 3 /\ c2 > c1 /\ c2 + 1 <= Len(s)
    /\ s[c1] = Colon /\ s[c2] = Colon
    /\ IsStrictHex(SubSeq(s, 2, c1 - 1)) /\ IsStrictHex(SubSeq(s, c1 + 1, c2 - 1))
    /\ LET l == BytesOfNibbles(SubSeq(s, c1 + 1, c2 - 1))
           v == SubSeq(s, c2 + 2, Len(s))
       IN /\ Len(l) <= 4
          /\ \/ s[c2 + 1] = FormatText /\ Len(v) = FieldLength(l)
             \/ s[c2 + 1] = FormatHex /\ Len(v) = 2 * FieldLength(l) /\ (IsStrictHex(v) \/ IsMasked(v, masks))
IngObject(s, c1, c2) ==
    LET v == SubSeq(s, c2 + 2, Len(s)) m == IsMasked(v, masks) IN
    << s[1] = TypeEmv, TrimZeroes(BytesOfNibbles(SubSeq(s, 2, c1 - 1))), m,
       IF m THEN <<>> ELSE IF s[c2 + 1] = FormatText THEN v ELSE BytesOfNibbles(v) >>
RECURSIVE IngCuts(_)
IngCuts(s) ==
    IF s = <<>> THEN { <<>> }
    ELSE UNION { { << IngObject(SubSeq(s, 1, c[3]), c[1], c[2]) >> \o r : r \in IngCuts(SubSeq(s, c[3] + 2, Len(s))) } :
                 c \in { d \in (1..Len(s)) \X (1..Len(s)) \X (1..Len(s)) : IsIngObject(SubSeq(s, 1, d[3]), d[1], d[2]) } }
\* C06, C07
IngPairs(objects) ==
    LET t == SelectSeq(objects, LAMBDA o : o[1]) IN [i \in 1..Len(t) |-> <<t[i][2], t[i][3], t[i][4]>>]
NodePairs(nodes) ==
    [i \in 1..Len(nodes) |-> <<nodes[i].tag, nodes[i].masked, IF nodes[i].masked THEN <<>> ELSE nodes[i].data>>]
IngIsCuts ==
    Over /\ Which = "ingenico" =>
        IF Result.ok THEN /\ Cardinality(IngCuts(text)) = 1
                          /\ { IngPairs(c) : c \in IngCuts(text) } = { NodePairs(Result.nodes) }
                          /\ \A i \in 1..Len(Result.nodes) :
                                LET n == Result.nodes[i] IN
                                IF n.masked \/ ~IsConstructed(n.tag) THEN n.kids = <<>>
                                ELSE n.kids = ParseBer(n.data, masks).nodes
        ELSE IngCuts(text) = {} /\ Result.nodes = <<>>

(***************************************************************************)
(* What has been read is never taken back, and is enough to write the      *)
(* input again.                                                            *)
(***************************************************************************)
Stack == IF Which = "ber" THEN sc.stk ELSE <<>>
\* Frames lie inside each other, and reading goes on inside them.
FramesNested ==
    /\ \A i \in 2..Len(Stack) : Stack[i].hi <= Stack[i - 1].hi
    /\ \A i \in 1..Len(Stack) : Stack[i].pos <= Stack[i].hi + 1
\* C03: the number of data objects read grows, and those at the bottom stay.
Bottom == IF Which = "ber" THEN sc.stk[1].nodes ELSE sc.nodes
NeverTakenBack ==
    [][ /\ Len(Bottom') >= Len(Bottom)
        /\ \A i \in 1..Len(Bottom) : Bottom'[i].tag = Bottom[i].tag /\ Bottom'[i].data = Bottom[i].data ]_vars
\* C01: the encodings of the same forest, in whatever form, read the same.
RECURSIVE Total(_)
Total(nodes) == IF nodes = <<>> THEN 0 ELSE Len(nodes[1].data) + Total(Tail(nodes))
Recoded(nodes, form) == Concat([i \in 1..Len(nodes) |-> Encode(nodes[i].tag, nodes[i].data, form)])
FormsAgree ==
    Over /\ Which = "ber" /\ Result.ok =>
        \A form \in 0..4 : ParseBer(Recoded(Result.nodes, form), masks) = Result
\* C23: it always ends.
Ends == <>Over
=============================================================================
