-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line, as a machine that reads one argument per step.        *)
(*                                                                         *)
(* An argument is a sequence of code points; a byte that isn't part of     *)
(* valid UTF-8 is a number of NotUnicode or more.                          *)
(*                                                                         *)
(* The state of the machine is [i, over, pend, vals, got, escaped, verdict]*)
(* where pend is the option that is waiting for values (vals so far), got  *)
(* what was given, as <<id, values>>, and the verdict                      *)
(*     "run"  "usage" (error)  "help"  "version".                          *)
(***************************************************************************)
EXTENDS PemvText

NotUnicode == 1114112
Dash == 45
Equals == 61

O(id, kind, longs, shorts) == [id |-> id, kind |-> kind, longs |-> longs, shorts |-> shorts]
Options == <<
    O("help", "help", {"help"}, {"h", "?"}),
    O("version", "version", {"version"}, {"V"}),
    O("colour", "colour", {"colour", "color"}, {}),
    O("masks", "masks", {"masking-character", "masking-char", "masking"}, {"m"}),
    O("sort", "bool", {"sort-parsed-tags", "sort"}, {}),
    O("nosort", "bool", {"no-sort-parsed-tags", "no-sort"}, {}),
    O("identify", "op", {"identify", "id"}, {}),
    O("auto", "op", {"auto-tlv", "auto", "parse-tlv", "parse"}, {"a"}),
    O("ber", "op", {"ber-tlv", "ber"}, {"b"}),
    O("ingenico", "op", {"ingenico-tlv", "ingenico"}, {"i"}),
    O("tvr", "op", {"tvr", "95", "iac", "tac"}, {"t"}),
    O("iad", "op", {"ccd-iad", "9F10", "9f10", "iad"}, {}),
    O("cvr", "op", {"ccd-cvr", "cvr"}, {}),
    O("tsi", "op", {"tsi", "9B", "9b"}, {}),
    O("cvmresults", "op", {"cvm-results", "9F34", "9f34", "cvm-result"}, {"r"}),
    O("cvmlist", "op", {"cvm-list", "8E", "8e"}, {}),
    O("servicecode", "op", {"service-code", "5F30", "5f30"}, {}) >>

Operations == { Options[k].id : k \in { j \in 1..Len(Options) : Options[j].kind = "op" } }
TlvOperations == {"auto", "ber", "ingenico"}
KindOf == [id \in { Options[k].id : k \in 1..Len(Options) } |->
             Options[CHOOSE k \in 1..Len(Options) : Options[k].id = id].kind]
MinValues == [op |-> 1, colour |-> 1, masks |-> 1, bool |-> 0]
MaxValues == [op |-> 1, colour |-> 1, masks |-> 1000, bool |-> 1]

\* No name belongs to two options.
ASSUME \A j, k \in 1..Len(Options) : j # k =>
          /\ Options[j].longs \cap Options[k].longs = {}
          /\ Options[j].shorts \cap Options[k].shorts = {}

\* Text as a string; everything but printable ASCII becomes a line feed.
CharText(c) == IF c \in 32..126 THEN ReadOut[c] ELSE "\n"
AsString(t) == Cat([i \in 1..Len(t) |-> CharText(t[i])])

\* The id of the option with this name, or "".
NamedBy(name, names(_)) ==
    LET ks == { k \in 1..Len(Options) : name \in names(Options[k]) } IN
    IF ks = {} THEN "" ELSE Options[CHOOSE k \in ks : TRUE].id
LongOption(name) == NamedBy(name, LAMBDA o : o.longs)
ShortOption(name) == NamedBy(name, LAMBDA o : o.shorts)

IsUnicode(v) == \A i \in 1..Len(v) : v[i] < NotUnicode
ColourNames == {"auto", "always", "ansi", "never"}
ValidValue(id, v) ==
    /\ IsUnicode(v)
    /\ CASE KindOf[id] = "op" -> v # <<>>
         [] KindOf[id] = "colour" -> AsString(v) \in ColourNames
         [] KindOf[id] = "masks" -> Len(v) = 1
         [] KindOf[id] = "bool" -> AsString(v) \in {"true", "false"}

CliStart == [i |-> 1, pend |-> "", vals |-> <<>>, got |-> <<>>, escaped |-> FALSE, verdict |-> ""]
CliOver(c) == c.verdict # ""
Verdict(c, v) == [c EXCEPT !.verdict = v]

GivenIn(got) == { got[k][1] : k \in 1..Len(got) }
\* The option waiting for values has got all it will get.
Resolve(c) ==
    IF c.pend = "" THEN c
    ELSE IF \/ Len(c.vals) < MinValues[KindOf[c.pend]]
            \/ \E k \in 1..Len(c.vals) : ~ValidValue(c.pend, c.vals[k])
            \/ c.pend # "masks" /\ c.pend \in GivenIn(c.got)
         THEN Verdict(c, "usage")
         ELSE [c EXCEPT !.pend = "", !.vals = <<>>, !.got = Append(@, <<c.pend, c.vals>>)]

\* An option was named; value is <<v>> if it's attached, <<>> otherwise.
Named(c, id, value) ==
    IF id = "" THEN Verdict(c, "usage")
    ELSE IF KindOf[id] \in {"help", "version"}
         THEN Verdict(c, IF value = <<>> THEN KindOf[id] ELSE "usage")
    ELSE IF value = <<>> THEN [c EXCEPT !.pend = id, !.vals = <<>>]
    ELSE Resolve([c EXCEPT !.pend = id, !.vals = value])

FindEquals(t) == IF \E k \in 1..Len(t) : t[k] = Equals
                 THEN CHOOSE k \in 1..Len(t) : t[k] = Equals /\ \A j \in 1..(k-1) : t[j] # Equals
                 ELSE 0
Long(c, t) ==                       \* t without the dashes
    LET e == FindEquals(t) IN
    IF e = 0 THEN Named(c, LongOption(AsString(t)), <<>>)
    ELSE Named(c, LongOption(AsString(SubSeq(t, 1, e - 1))), << SubSeq(t, e + 1, Len(t)) >>)
Short(c, t) ==                      \* t without the dash
    LET id == ShortOption(CharText(t[1]))
        rest == Tail(t)
    IN IF id \in {"help", "version"} THEN Named(c, id, <<>>)
       ELSE IF rest = <<>> THEN Named(c, id, <<>>)
       ELSE Named(c, id, << IF rest[1] = Equals THEN Tail(rest) ELSE rest >>)

Value(c, t) ==
    IF c.pend = "" THEN Verdict(c, "usage")
    ELSE LET d == [c EXCEPT !.vals = Append(@, t)] IN
         IF Len(d.vals) = MaxValues[KindOf[c.pend]] THEN Resolve(d) ELSE d

\* All arguments have been read: do they go together?
Check(c) ==
    LET given == GivenIn(c.got)
        ops == given \cap Operations
    IN Verdict(c, IF \/ c.got = <<>>
                     \/ Cardinality(ops) > 1
                     \/ {"sort", "nosort"} \subseteq given
                     \/ given \cap {"masks", "sort", "nosort"} # {} /\ ops \cap TlvOperations = {}
                  THEN "usage" ELSE "run")

\* Reading the argument argv[c.i], or the end of the arguments.
ThenNext(c) == IF CliOver(c) THEN c ELSE [c EXCEPT !.i = @ + 1]
CliStep(c, argv) ==
    IF c.i = 1 /\ \E k \in 1..Len(argv) : ~IsUnicode(argv[k])
    THEN Verdict(c, "usage")
    ELSE IF c.i > Len(argv)
    THEN LET d == Resolve(c) IN IF CliOver(d) THEN d ELSE Check(d)
    ELSE LET t == argv[c.i]
             d == Resolve(c)          \* only used where a new option begins
         IN IF c.escaped THEN Verdict(c, "usage")
            ELSE IF Len(t) >= 2 /\ t[1] = Dash
                 THEN IF CliOver(d) THEN d
                      ELSE IF t = <<Dash, Dash>> THEN ThenNext([d EXCEPT !.escaped = TRUE])
                      ELSE IF t[2] = Dash THEN ThenNext(Long(d, SubSeq(t, 3, Len(t))))
                      ELSE ThenNext(Short(d, Tail(t)))
                 ELSE ThenNext(Value(c, t))

\* What was asked for, once the verdict is "run".
GivenOp(c) == LET ops == GivenIn(c.got) \cap Operations IN
              IF ops = {} THEN "" ELSE CHOOSE o \in ops : TRUE
ValuesOf(c, id) ==
    Concat([k \in 1..Len(c.got) |-> IF c.got[k][1] = id THEN c.got[k][2] ELSE <<>>])
GivenArg(c) == LET o == GivenOp(c) IN IF o = "" THEN <<>> ELSE ValuesOf(c, o)[1]
=============================================================================
