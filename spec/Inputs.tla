------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* Finite sets of invocations, all of which are explored by MC and run on  *)
(* the real program.                                                       *)
(***************************************************************************)
EXTENDS Pemv, BerTlv

\* (The sets have a parameter, which is ignored, so that TLC evaluates
\* only those that it needs.)
CONSTANT Size                \* 1 for quick checks, 2 for thorough ones

CodeOf == [c \in { ReadOut[b] : b \in 32..126 } |-> CHOOSE b \in 32..126 : ReadOut[b] = c /\ (c = "." => b = 46)]
\* A string as code points.
Cp(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
CpHex(bytes) == IF bytes = <<>> THEN <<32>> ELSE Cp(HexOf(bytes))

World(argv) == [argv |-> argv, env |-> Nothing, profile |-> <<>>, dirs |-> <<>>,
                tty |-> FALSE, nocolor |-> FALSE, term |-> ""]
Call(op, arg) == World(<<Cp("--" \o op), arg>>)
CallWith(op, arg, options) == World(<<Cp("--" \o op), arg>> \o [i \in 1..Len(options) |-> Cp(options[i])])
Strings(S, n) == UNION { [1..k -> S] : k \in 0..n }
Deep == IF Size = 1 THEN 0 ELSE 1

(***************************************************************************)
(* BER-TLV: every byte string over a few bytes that matter.                *)
(***************************************************************************)
\* primitive, constructed, long tags, lengths, long lengths, a masking character
AlphabetStructure == {0, 1, 2, 90, 112, 159, 129, 42}
\* nesting: constructed, a little, masking characters
AlphabetNesting == {112, 0, 1, 2, 3, 80}
AlphabetMasks == {80, 112, 1, 2, 3, 42, 43}
AlphabetLengths == {80, 0, 1, 129, 130, 131, 132, 133, 128}

BerStructure(z) == { CallWith("ber", CpHex(b), <<"--no-sort">>) : b \in Strings(AlphabetStructure, 4 + Deep) }
BerNesting(z) == { CallWith("ber", CpHex(b), <<"--no-sort">>) : b \in Strings(AlphabetNesting, 4 + Deep) }
                \cup { CallWith("ber", CpHex(<<112, Len(b)>> \o b), <<"--no-sort">>) : b \in [1..4 -> AlphabetNesting] }
BerMasks(z) == { CallWith("ber", CpHex(b), <<"--no-sort", "-m", "*", "+">>) : b \in Strings(AlphabetMasks, 4 + Deep) }
BerLengths(z) == { CallWith("ber", CpHex(<<80>> \o b), <<"--no-sort">>) : b \in Strings(AlphabetLengths, 4 + Deep) }

(***************************************************************************)
(* BER-TLV: every form of encoding, around every boundary of the lengths.  *)
(***************************************************************************)
Fill(n, k) == [i \in 1..n |-> (i * 7 + k) % 256]
SomeTags == { <<80>>, <<193>>, <<0>>, <<159, 2>>, <<31, 1>>, <<223, 129, 1>>, <<95, 255, 200, 5>> }
SomeLengths == {0, 1, 2, 15, 16, 17, 127, 128, 129, 255, 256, 257, 300}
FormsOf(n) == { f \in 0..4 : LengthFits(n, f) }
Encoded(tag) == UNION { { Encode(tag, Fill(n, Len(tag)), f) : f \in FormsOf(n) } : n \in SomeLengths }
BerForms(z) == { CallWith("ber", CpHex(b), <<"--no-sort">>) : b \in UNION { Encoded(t) : t \in SomeTags } }
            \cup { CallWith("ber", CpHex(b \o Encode(<<80>>, <<1, 2>>, 0)), <<"--no-sort">>) : b \in Encoded(<<159, 2>>) }

\* Small forests in every shape, with every form of length.
Leaf(z) == { Encode(<<80>>, v, 0) : v \in { <<>>, <<1>>, <<42, 42>> } }
Nest1(z) == { Encode(<<112>>, x, f) : x \in Leaf(0) \cup {<<>>, <<80>>, <<80, 2, 1>>}, f \in {0, 1} }
         \cup { Encode(<<127, 33>>, x \o y, 0) : x \in Leaf(0), y \in Leaf(0) }
Nest2(z) == { Encode(<<225>>, x \o y, f) : x \in Nest1(0), y \in Leaf(0) \cup {<<>>}, f \in {0, 2} }
BerShapes(z) == { CallWith("ber", CpHex(x), <<"--no-sort">>) : x \in Nest1(0) \cup Nest2(0) }
             \cup { CallWith("ber", CpHex(x \o y), <<>>) : x \in Nest1(0), y \in Nest1(0) }

(***************************************************************************)
(* Ingenico: fields from small sets, in all combinations.                  *)
(***************************************************************************)
IngTypes == {"T", "S"}
IngTags == {"50", "9F02", "0050", "5", "", "5g", "df8101"}
IngLens == {"00", "01", "0002", "2", "", "0000000001", "zz"}
IngValues == {"a", "h", "x", "", "aQ", "aQR", "h41", "h4142", "h4g", "h**", "a**", "a*", "h****", "h*1"}
IngOne(z) == { t \o tag \o c \o len \o d \o v : t \in IngTypes, tag \in IngTags, c \in {":", ""}, len \in IngLens,
                                             d \in {":"}, v \in IngValues }
IngEnds == {"", " ", "T", "xT50:01:aQ", " S50:01:hGG", "xS9F02:01:h00xT51:00:h"}
IngenicoFields(z) ==
    { CallWith("ingenico", Cp(x), <<"--no-sort">>) : x \in IngOne(0) \ {""} }
    \cup { CallWith("ingenico", Cp(x \o e), <<"--no-sort">>) :
              x \in { y \o "50:" \o l \o ":" \o v : y \in IngTypes, l \in {"00", "01", "02", "0002"}, v \in IngValues },
              e \in IngEnds }
\* Every prefix of a block, and every place in it taken by another character.
IngBlock == "T5F2A:02:h0840 S9F1E:03:aABC,T70:0004:h50020102 t82:01:h41 T8A:02:a00"
IngReplacements == {":", "g", "0", "9", " ", "T", "a", "h", "*"}
IngenicoMutants(z) ==
    { CallWith("ingenico", Cp(SubSeq(IngBlock, 1, n)), <<"--no-sort">>) : n \in 1..Len(IngBlock) }
    \cup { CallWith("ingenico", Cp(SubSeq(IngBlock, 1, n - 1) \o r \o SubSeq(IngBlock, n + 1, Len(IngBlock))), <<"--no-sort">>) :
              n \in 1..Len(IngBlock), r \in IngReplacements }
    \cup { CallWith("ingenico", Cp(SubSeq(IngBlock, 1, n - 1) \o SubSeq(IngBlock, n + 1, Len(IngBlock))), <<"--no-sort">>) :
              n \in 1..Len(IngBlock) }

\* Any two characters between data objects, the second of which may be a type or another separator.
Between == {1, 9, 10, 13, 32, 42, 44, 48, 58, 59, 84, 97, 104, 116, 127}
IngenicoSeparators(z) ==
    { CallWith("ingenico", Cp("T50:01:aA") \o <<a, b>> \o Cp(x \o "51:01:aB"), <<"--no-sort">>) : a \in Between, b \in Between, x \in {"", "T"} }
    \cup { CallWith("ingenico", Cp("T50:01:aA") \o e, <<"--no-sort">>) : e \in [1..1 -> Between] \cup [1..2 -> Between] }

(***************************************************************************)
(* Sorting: every order of some tags, with prefixes and equal ones, at two *)
(* levels.                                                                 *)
(***************************************************************************)
SortTags == { <<80>>, <<79>>, <<95, 36>>, <<95, 37>>, <<193>> }
Tagged(tags) == Concat([i \in 1..Len(tags) |-> Encode(tags[i], <<i>>, 0)])
SortArrangements(z) == Strings(SortTags, 4)
SortOptions == { <<>>, <<"--no-sort">> }
Sorting(z) == { CallWith("ber", CpHex(Tagged(a)), o) : a \in SortArrangements(0), o \in SortOptions }
           \cup { CallWith("ber", CpHex(Encode(<<225>>, Tagged(a), 0) \o Encode(<<112>>, Tagged(b), 0)), o) :
                     a \in [1..2 -> SortTags], b \in [1..3 -> {<<80>>, <<79>>, <<95, 36>>}], o \in SortOptions }

(***************************************************************************)
(* Settings: every combination of layers for one setting at a time.        *)
(***************************************************************************)
\* values for the setting, of which the layers can say either or nothing
Sayings(v, w) == { <<>>, <<v>>, <<w>> }
LayersFor(which) ==
    CASE which = "colour" -> { Layer(s, <<>>, <<>>) : s \in Sayings("always", "never") }
      [] which = "masks" -> { Layer(<<>>, s, <<>>) : s \in Sayings(<<35>>, <<42, 43>>) }
      [] which = "sort" -> { Layer(<<>>, <<>>, s) : s \in Sayings("true", "false") }
CliOptionsOf(l) ==
    (IF l.colour = <<>> THEN <<>> ELSE <<Cp("--colour"), Cp(l.colour[1])>>)
    \o (IF l.masks = <<>> THEN <<>> ELSE <<Cp("-m")>> \o [i \in 1..Len(l.masks[1]) |-> <<l.masks[1][i]>>])
    \o (IF l.sort = <<>> THEN <<>> ELSE IF l.sort[1] = "true" THEN <<Cp("--sort")>> ELSE <<Cp("--no-sort")>>)
\* A block on which all settings can be seen.
Probe == Encode(<<80>>, <<42, 42>>, 0) \o Encode(<<79>>, <<35, 35>>, 0)
         \o Encode(<<112>>, Encode(<<95, 36>>, <<43, 43>>, 0) \o Encode(<<80>>, <<42, 42, 42>>, 0), 0)
\* the name of a profile, in capitals
WorkName == Cp("work")
SettingsWorld(l, selected) ==
    [World(<<Cp("--ber"), CpHex(Probe)>> \o CliOptionsOf(l[5])) EXCEPT
        !.env = l[4],
        !.profile = selected,
        !.dirs = << [there |-> TRUE, broken |-> FALSE, profiles |->
                       << [name |-> Cp("other"), layer |-> Layer(<<"always">>, <<<<35>>>>, <<"false">>)],
                          [name |-> DefaultProfile, layer |-> l[1]],
                          [name |-> WorkName, layer |-> l[2]],
                          [name |-> GlobalProfile, layer |-> l[3]] >>] >>]
SettingsLayers(z) ==
    UNION { { SettingsWorld(l, selected) : l \in [1..5 -> LayersFor(which)], selected \in {<<Cp("WORK")>>} } :
            which \in {"colour", "masks", "sort"} }
\* Which file counts, and which profile of it.
FileSaying(l) == [there |-> TRUE, broken |-> FALSE, profiles |-> << [name |-> DefaultProfile, layer |-> l] >>]
SettingsFiles(z) ==
    { [World(<<Cp("--ber"), CpHex(Probe)>>) EXCEPT !.dirs = d] :
        d \in [1..3 -> { NoFile, FileSaying(Layer(<<>>, <<<<35>>>>, <<>>)), FileSaying(Layer(<<>>, <<>>, <<"false">>)),
                         [NoFile EXCEPT !.there = TRUE], [NoFile EXCEPT !.there = TRUE, !.broken = TRUE] }] }
    \cup { [World(<<Cp("--ber"), CpHex(Probe)>>) EXCEPT !.profile = p, !.dirs =
              << [there |-> TRUE, broken |-> FALSE, profiles |->
                    [i \in 1..Len(names) |-> [name |-> Cp(names[i]), layer |-> Layer(<<>>, <<<<35>>>>, <<"false">>)]]] >>] :
              p \in { <<>>, <<Cp("work")>>, <<Cp("Default")>>, <<Cp("GLOBAL")>>, <<Cp("none")>> },
              names \in { <<>>, <<"work">>, <<"Work">>, <<"default">>, <<"global">>, <<"other">>, <<"other", "work">> } }
\* Values that aren't, in every layer, with and without a higher layer that's right.
BadLayers == { Layer(<<"?">>, <<>>, <<>>), Layer(<<>>, <<<<NoMask>>>>, <<>>), Layer(<<>>, <<>>, <<"?">>) }
GoodLayer == Layer(<<"never">>, <<<<35>>>>, <<"false">>)
SettingsBad(z) ==
    UNION { { SettingsWorld([i \in 1..5 |-> IF i = k THEN bad ELSE IF i = j THEN GoodLayer ELSE Nothing], <<Cp("work")>>) :
                k \in 1..4, j \in 1..5 } : bad \in BadLayers }

(***************************************************************************)
(* Command lines: every sequence of a few arguments.                       *)
(***************************************************************************)
CliTokens == { "--ber", "5A0101", "--ber=500101", "-b500101", "--tvr", "-t", "0000000000", "--sort", "true", "--no-sort", "--sort=false",
               "-m", "#", "--colour", "never", "--colour=always", "--help", "-V", "--", "-x", "--tsi=" }
Commands(z) == { World([i \in 1..Len(s) |-> Cp(s[i])]) : s \in Strings(CliTokens, 2 + Deep) }
            \cup { World([i \in 1..Len(s) |-> Cp(s[i])] \o o) : s \in Strings(CliTokens, 2),
                      o \in { <<Cp("--ber"), Cp("5A0101")>>, <<Cp("--sort"), Cp("--ber=500101")>> } }
            \cup { World(<<Cp("-i"), Cp("T50:01:aQ")>> \o [i \in 1..Len(s) |-> Cp(s[i])]) : s \in Strings(CliTokens, 2) }
\* Every name of every operation, in every way to write it, with an argument that fits.
Fitting == [ identify |-> "9F02", auto |-> "5A0101", ber |-> "5A0102", ingenico |-> "T50:01:aQ", tvr |-> "8000000000",
             iad |-> "0FA501A03FF700F800000000000000000F0102030405060708090A0B0C0D0E0F", cvr |-> "0000000001",
             tsi |-> "8000", cvmresults |-> "420302", cvmlist |-> "00000000000000004103", servicecode |-> "201" ]
OptionOf(id) == Options[CHOOSE k \in 1..Len(Options) : Options[k].id = id]
Spellings(id, arg) ==
    UNION { { <<Cp("--" \o n), arg>>, <<Cp("--" \o n \o "=") \o arg>> } : n \in OptionOf(id).longs }
    \cup UNION { { <<Cp("-" \o n), arg>>, <<Cp("-" \o n) \o arg>>, <<Cp("-" \o n \o "=") \o arg>> } : n \in OptionOf(id).shorts }
Names(z) == UNION { { World(s) : s \in Spellings(id, Cp(Fitting[id])) } : id \in Operations }
Pairs(z) == { World(<<Cp("--" \o a), Cp(Fitting[i]), Cp("--" \o b), Cp(Fitting[j])>>) :
             <<i, a, j, b>> \in { <<i, CHOOSE n \in OptionOf(i).longs : TRUE, j, CHOOSE n \in OptionOf(j).longs : TRUE>> :
                                   i \in Operations, j \in Operations } }

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
Zeroes(n) == [i \in 1..n |-> 0]
ByteIn(n, k, v) == [i \in 1..n |-> IF i = k THEN v ELSE 0]
Bitsets(n) == UNION { { ByteIn(n, k, v) : v \in 0..255 } : k \in 1..n }
              \cup UNION { { [ByteIn(n, k, 2^i) EXCEPT ![m] = 2^j] : k \in 1..n, m \in 1..n } : i \in 0..7, j \in 0..7 }
              \cup { [i \in 1..n |-> 255] }
FewBits(n) == UNION { { ByteIn(n, k, 2^i) : k \in 1..n } : i \in 0..7 } \cup { Zeroes(n), [i \in 1..n |-> 255] }
              \cup { [i \in 1..n |-> (255 - 2^k)] : k \in 0..7 }
ValuesOfBits(z) ==
    UNION { { Call("tvr", CpHex(b)) : b \in Bitsets(5) }, { Call("tsi", CpHex(b)) : b \in Bitsets(2) },
            { Call("cvr", CpHex(b)) : b \in Bitsets(5) } }
InBlock(tag, b) == Call("ber", CpHex(Encode(tag, b, 0)))
ValuesOfBitsListed(z) ==
    UNION { { InBlock(t, b) : b \in FewBits(5), t \in { <<149>>, <<159, 13>>, <<159, 14>>, <<159, 15>>, <<159, 64>> } },
            { InBlock(<<155>>, b) : b \in FewBits(2) }, { InBlock(<<159, 51>>, b) : b \in Bitsets(3) },
            { InBlock(<<159, 64>>, b) : b \in Bitsets(5) } }
CvmRules(z) == UNION { { <<m, 0>>, <<1, m>> } : m \in 0..255 }
CvmListOf(x, y, rules) == x \o y \o Concat(rules)
Amounts == { <<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,100>>, <<0,0,3,231>>, <<0,0,3,232>>, <<0,1,0,0>>, <<127,255,255,255>>,
             <<128,0,0,0>>, <<255,255,255,255>> }
CvmLists(z) ==
    { Call("cvm-list", CpHex(CvmListOf(<<0,0,0,0>>, <<0,0,0,0>>, <<r>>))) : r \in CvmRules(0) }
    \cup { Call("cvm-list", CpHex(CvmListOf(x, y, r))) : x \in Amounts, y \in Amounts,
              r \in { <<>>, << <<66, 3>> >>, << <<31, 6>>, <<1, 9>>, <<0, 0>> >> } }
    \cup { Call("cvm-list", CpHex(CvmListOf(<<0,0,0,0>>, <<0,0,0,0>>, [i \in 1..k |-> <<65, IF i = j THEN c ELSE 0>>]))) :
              k \in 1..4, j \in 1..4, c \in {5, 6, 7, 8, 9, 10} }
    \cup { Call("cvm-list", CpHex(CvmListOf(<<0,0,0,0>>, <<0,0,0,0>>, [i \in 1..k |-> <<i % 64, i % 10>>]))) : k \in {9, 10, 11, 99, 100, 121} }
CvmResultsSet(z) ==
    { Call("cvm-results", CpHex(<<m, 3, 2>>)) : m \in 0..255 } \cup { Call("cvm-results", CpHex(<<66, c, 1>>)) : c \in 0..255 }
    \cup { Call("cvm-results", CpHex(<<66, 3, r>>)) : r \in 0..255 }
    \cup { InBlock(<<159, 52>>, <<m, c, r>>) : m \in {0, 2, 66, 192, 255}, c \in {0, 9, 10, 255}, r \in {0, 1, 2, 3, 255} }

GoodIad == <<15, 165, 1, 160, 63, 247, 0, 248, 1, 2, 3, 4, 5, 6, 7, 8, 15>> \o [i \in 1..15 |-> 16 + i]
Iads(z) ==
    { [GoodIad EXCEPT ![k] = v] : k \in {1, 2, 17}, v \in 0..255 }
    \cup { [GoodIad EXCEPT ![k] = v] : k \in 3..32, v \in {0, 1, 15, 128, 255} }
    \cup { [i \in 1..n |-> IF i <= 32 THEN GoodIad[i] ELSE 0] : n \in 0..48 }
    \cup { [GoodIad EXCEPT ![2] = c, ![1] = a, ![17] = b] : c \in {165, 166, 160, 175, 181}, a \in {0, 15}, b \in {0, 15, 16} }
IadSet(z) == { Call("iad", CpHex(b)) : b \in Iads(0) } \cup { InBlock(<<159, 16>>, b) : b \in Iads(0) }

ServiceCodes(z) ==
    { Call("service-code", Cp(Dec(n))) : n \in 0..1010 } \cup { Call("service-code", Cp("0" \o Dec(n))) : n \in {0, 1, 99, 100, 999, 1000} }
    \cup { InBlock(<<95, 48>>, <<a, b>>) : a \in {0, 1, 2, 9, 10, 16, 153, 160}, b \in {0, 1, 9, 10, 15, 16, 26, 154, 160, 33, 66, 103, 118, 153} }
    \cup { InBlock(<<95, 48>>, <<a, b>>) : a \in 0..9, b \in { 16 * k + k : k \in 0..9 } }
Codes(z) == { InBlock(<<156>>, <<v>>) : v \in 0..255 } \cup { InBlock(<<159, 53>>, <<v>>) : v \in 0..255 }
         \cup { InBlock(<<159, 57>>, <<v>>) : v \in 0..255 }
         \cup { InBlock(<<138>>, <<a, b>>) : a \in 48..57, b \in 48..57 }
         \cup { InBlock(<<138>>, <<a, b>>) : a \in {0, 32, 45, 47, 58, 65, 89, 90, 97, 128, 195, 255}, b \in {0, 32, 49, 51, 58, 65, 128, 169, 255} }

\* Every tag of one or two bytes that the dictionary may know, and every first byte.
AllTags(z) == { <<a>> : a \in 0..255 } \cup { <<a, b>> : a \in {95, 159, 191, 31, 127, 223}, b \in 0..255 }
           \cup { <<a, b, 5>> : a \in {95, 159, 191}, b \in {1, 2, 128, 129, 255} }
Tags(z) == { Call("identify", CpHex(t)) : t \in AllTags(0) } \cup { Call("identify", Cp("-")) }

(***************************************************************************)
(* Sizes                                                                      *)
(***************************************************************************)
SizedOps == {"tvr", "tsi", "cvr", "cvm-results", "cvm-list", "iad", "identify"}
SizedTags == { <<95, 48>>, <<138>>, <<142>>, <<149>>, <<155>>, <<156>>, <<159, 13>>, <<159, 14>>, <<159, 15>>, <<159, 16>>,
               <<159, 51>>, <<159, 52>>, <<159, 53>>, <<159, 57>>, <<159, 64>> }
ValueOf(n) == [i \in 1..n |-> IF n = 1 THEN 34 ELSE IF n = 2 /\ i = 1 THEN 2 ELSE IF n = 2 THEN 1 ELSE (i % 3)]
Sizes(z) == { Call(op, CpHex(ValueOf(n))) : op \in SizedOps, n \in 0..34 }
         \cup { InBlock(t, ValueOf(n)) : t \in SizedTags, n \in 0..12 }
         \cup { InBlock(<<112>>, Encode(<<112>>, Encode(<<80>>, <<1>>, 0) \o Encode(t, ValueOf(n), 0), 0)) : t \in SizedTags, n \in 0..12 }
         \cup { CallWith("ber", CpHex(Encode(t, [i \in 1..n |-> 42], 0)), <<>>) : t \in SizedTags, n \in 0..9 }

(***************************************************************************)
(* Detection                                                                  *)
(***************************************************************************)
AutoTexts == { "T50:01:aQ", "T50:01:hAQ", "S50:01:aQ", "500101", "5001", "50 01 01", "T50:01:a", "50:00:a", "T5A:01:h00T95:01:h00", "9501FF",
               "T95:01:h00", "T70:02:h5000", "70025000", "A50:00:h", "a50:00:h", "C40:00:a", "zz", "-", "5A:00", "T5A:00:x", "50015000", "E00:00:a" }
Detection(z) == { CallWith("auto", Cp(x), o) : x \in AutoTexts, o \in { <<>>, <<"--no-sort">>, <<"-m", "Q">>, <<"-m", "0">> } }

(***************************************************************************)
(* Layout                                                                  *)
(***************************************************************************)
Layouts(z) ==
    { InBlock(<<80>>, Fill(n, k)) : n \in 0..50, k \in {0, 13} }
    \cup { InBlock(<<80>>, [i \in 1..16 |-> 16 * k + i - 1]) : k \in 0..15 }
    \cup { InBlock(<<112>>, Encode(<<225>>, Encode(<<80>>, Fill(n, 3), 0) \o Encode(<<155>>, <<128, 0>>, 0), 0) \o Encode(<<81>>, Fill(m, 1), 0)) :
              n \in {0, 1, 2, 16, 17, 33}, m \in {0, 1, 2, 16, 40} }

InputsOf(model) ==
    CASE model = "BerStructure" -> BerStructure(0)
      [] model = "BerNesting" -> BerNesting(0)
      [] model = "BerMasks" -> BerMasks(0)
      [] model = "BerLengths" -> BerLengths(0)
      [] model = "BerForms" -> BerForms(0)
      [] model = "BerShapes" -> BerShapes(0)
      [] model = "IngenicoFields" -> IngenicoFields(0)
      [] model = "IngenicoMutants" -> IngenicoMutants(0)
      [] model = "IngenicoSeparators" -> IngenicoSeparators(0)
      [] model = "Sorting" -> Sorting(0)
      [] model = "SettingsLayers" -> SettingsLayers(0)
      [] model = "SettingsFiles" -> SettingsFiles(0)
      [] model = "SettingsBad" -> SettingsBad(0)
      [] model = "Commands" -> Commands(0)
      [] model = "Names" -> Names(0)
      [] model = "Pairs" -> Pairs(0)
      [] model = "ValuesOfBits" -> ValuesOfBits(0)
      [] model = "ValuesOfBitsListed" -> ValuesOfBitsListed(0)
      [] model = "CvmLists" -> CvmLists(0)
      [] model = "CvmResultsSet" -> CvmResultsSet(0)
      [] model = "IadSet" -> IadSet(0)
      [] model = "ServiceCodes" -> ServiceCodes(0)
      [] model = "Codes" -> Codes(0)
      [] model = "Tags" -> Tags(0)
      [] model = "Sizes" -> Sizes(0)
      [] model = "Detection" -> Detection(0)
      [] model = "Layouts" -> Layouts(0)
=============================================================================
