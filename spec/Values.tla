------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The values that can be decoded: from bytes to an error or a view, which *)
(* is the sequence of lines that show it (at indentation 0).               *)
(***************************************************************************)
EXTENDS Bitfields

Seen(lines) == [ok |-> TRUE, err |-> NoErr, view |-> lines]
Unseen(err) == [ok |-> FALSE, err |-> err, view |-> <<>>]
Exactly(n, bytes, v) == IF Len(bytes) # n THEN Unseen(ErrBytes("exactly", n, Len(bytes))) ELSE v

(***************************************************************************)
(* Bit fields                                                              *)
(***************************************************************************)
Tvr(b) == Exactly(5, b, Seen(Diagram(TvrFields, b, TRUE)))
Tsi(b) == Exactly(2, b, Seen(Diagram(TsiFields, b, TRUE)))
Cvr(b) == Exactly(5, b, Seen(Diagram(CvrFields, b, TRUE)))
TermCap(b) == Exactly(3, b, Seen(Diagram(TermCapFields, b, TRUE)))
AddTermCap(b) == Exactly(5, b, Seen(Diagram(AddTermCapFields, b, TRUE)))

IacText ==
  [ default |-> "If not an online transaction and any of the following match the TVR, reject the transaction:",
    denial  |-> "If any of the following match the TVR, deny the transaction without even going online:",
    online  |-> "If any of the following match the TVR, complete the transaction online:" ]
Iac(which, b) ==
    Exactly(5, b, Seen(<< Line(0, << <<"h", IacText[which]>> >>) >> \o Diagram(TvrFields, b, FALSE)))

CvmResults(b) ==
    Exactly(3, b,
        IF ~IsDefined(CvmResultFields[4], b) THEN Unseen(Err("noncompliant"))
        ELSE Seen(Diagram(CvmResultFields, b, TRUE)))

(***************************************************************************)
(* CVM lists                                                               *)
(***************************************************************************)
RuleMethod(rule) == rule[1] % 64
RuleGoesOn(rule) == Bit(rule[1], 6) = 1
\* EMV Book 3, table 40: conditions 6 to 9 compare with the X or Y amount
UsesAmounts(rule) == rule[2] \in 6..9

RuleLines(rule, i) ==
    << Line(0, << <<"b", "CVM " \o Dec(i) \o ":">> >>),
       Line(1, << <<"b", "Method:         ">>, <<"", " " \o MethodName(RuleMethod(rule))>> >>),
       Line(1, << <<"b", "Condition:      ">>, <<"", " " \o ConditionName(rule[2])>> >>),
       Line(1, << <<"b", "If Unsuccessful:">>, <<"", IF RuleGoesOn(rule) THEN " Next CVM" ELSE " Fail">> >>) >>

CvmList(b) ==
    IF Len(b) < 8 THEN Unseen(ErrBytes("atleast", 8, Len(b)))
    ELSE IF Len(b) % 2 # 0 THEN Unseen(Err("indivisible"))
    ELSE LET rules == [i \in 1..((Len(b) - 8) \div 2) |-> <<b[7 + 2*i], b[8 + 2*i]>>]
             x == DecDigits(SubSeq(b, 1, 4))
             y == DecDigits(SubSeq(b, 5, 8))
             width == Max2(Max2(Len(x), Len(y)), 3)
             amounts == \/ \E i \in 1..8 : b[i] # 0
                        \/ \E i \in 1..Len(rules) : UsesAmounts(rules[i])
         IN Seen((IF amounts
                  THEN << Line(0, << <<"h", "X Value:">>,
                                     <<"", " " \o PadDigits(x, width) \o " (implicit decimal point based on application currency)">> >>),
                          Line(0, << <<"h", "Y Value:">>, <<"", " " \o PadDigits(y, width)>> >>) >>
                  ELSE <<>>)
                 \o << Line(0, << <<"h", "Cardholder Verification Rules:">> >>) >>
                 \o Concat([i \in 1..Len(rules) |-> RuleLines(rules[i], i)]))

(***************************************************************************)
(* Issuer application data (CCD)                                           *)
(***************************************************************************)
IsCcd(b) ==
    /\ Len(b) = 32 /\ b[1] = 15 /\ b[17] = 15
    /\ b[2] \div 16 = 10 /\ b[2] % 16 \in {5, 6}
Iad(b) ==
    IF ~IsCcd(b) THEN Unseen(Err("nonccd"))
    ELSE Seen(<< Line(0, << <<"h", "Common Core Identifier:">> >>) >>
              \o Indent(Diagram(CciFields, <<b[2]>>, TRUE), 1)
              \o << Line(0, << <<"h", "Derivation Key Index:">>, <<"", " 0x" \o Hex2[b[3]]>> >>),
                    Line(0, << <<"h", "Card Verification Results:">> >>) >>
              \o Indent(Diagram(CvrFields, SubSeq(b, 4, 8), TRUE), 1)
              \o << Line(0, << <<"h", "Counters: (Payment System-Specific)">> >>),
                    PlainLine(1, HexSpaced(SubSeq(b, 9, 16))),
                    Line(0, << <<"h", "Issuer-Discretionary Data">> >>),
                    PlainLine(1, HexSpaced(SubSeq(b, 18, 32))) >>)

(***************************************************************************)
(* Service codes (ISO/IEC 7813)                                            *)
(***************************************************************************)
Interchange(d) == CASE d \in {1, 2} -> "International" [] d \in {5, 6} -> "National"
                    [] d = 7 -> "Private" [] d = 9 -> "Test" [] OTHER -> "RFU"
Technology(d) == IF d \in {2, 6} THEN "Integrated circuit card (ICC)" ELSE "Magnetic stripe only (MSR)"
Authorisation(d) == CASE d = 0 -> "Normal"
                      [] d = 2 -> "By issuer only (no offline authorisation)"
                      [] d = 4 -> "By issuer only unless an explicit bilateral agreement applies (no offline authorisation)"
                      [] OTHER -> "RFU"
AllowedServices(d) == CASE d \in {0, 1, 6} -> "No restrictions"
                        [] d \in {2, 5, 7} -> "Goods and services only"
                        [] d = 3 -> "ATM only" [] d = 4 -> "Cash only" [] OTHER -> "RFU"
PinRequirements(d) == CASE d \in {0, 3, 5} -> "PIN required"
                        [] d \in {6, 7} -> "Prompt for PIN if PIN pad is present" [] OTHER -> "None"

ServiceCodeView(n) ==
    LET d1 == n \div 100 d2 == (n \div 10) % 10 d3 == n % 10 IN
    << Line(0, << <<"b", PadDigits(<<d1, d2, d3>>, 3)>> >>),
       Line(0, << <<"", "││├ ">>, <<"b", "Allowed Services:">>, <<"", "         " \o AllowedServices(d3)>> >>),
       Line(0, << <<"", "││└ ">>, <<"b", "PIN Requirements:">>, <<"", "         " \o PinRequirements(d3)>> >>),
       Line(0, << <<"", "│└─ ">>, <<"b", "Authorisation Processing:">>, <<"", " " \o Authorisation(d2)>> >>),
       Line(0, << <<"", "├── ">>, <<"b", "Interchange:">>, <<"", "              " \o Interchange(d1)>> >>),
       Line(0, << <<"", "└── ">>, <<"b", "Technology:">>, <<"", "               " \o Technology(d1)>> >>) >>
ServiceCode(n) == IF n > 999 THEN Unseen(Err("number")) ELSE Seen(ServiceCodeView(n))

\* Two bytes of BCD digits in a data object.
ServiceCodeBcd(b) ==
    Exactly(2, b,
        LET ds == <<b[1] \div 16, b[1] % 16, b[2] \div 16, b[2] % 16>> IN
        IF \E i \in 1..4 : ds[i] > 9 THEN Unseen(Err("number"))
        ELSE ServiceCode(ds[1] * 1000 + ds[2] * 100 + ds[3] * 10 + ds[4]))

\* A decimal number as a text, as Rust reads a u16: surrounding white space
\* and one plus sign are allowed.
WhiteSpace == (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(t) == IF t # <<>> /\ Head(t) \in WhiteSpace THEN TrimLeft(Tail(t)) ELSE t
TrimRight(t) == IF t # <<>> /\ t[Len(t)] \in WhiteSpace THEN TrimRight(SubSeq(t, 1, Len(t) - 1)) ELSE t
IsDigit(c) == c \in 48..57
ServiceCodeText(text) ==
    LET t == TrimRight(TrimLeft(text))
        ds == IF t # <<>> /\ Head(t) = 43 THEN Tail(t) ELSE t
        n == FoldLeft(LAMBDA acc, c : IF acc > 999 THEN 1000 ELSE acc * 10 + (c - 48), 0, ds)
    IN IF ds = <<>> \/ \E i \in 1..Len(ds) : ~IsDigit(ds[i]) THEN Unseen(Err("number"))
       ELSE ServiceCode(n)

(***************************************************************************)
(* Codes                                                                   *)
(***************************************************************************)
Coded(table, b) ==
    Exactly(1, b, IF Hex2[b[1]] \in DOMAIN table THEN Seen(<<PlainLine(0, table[Hex2[b[1]]])>>)
                  ELSE Unseen(Err("unrecognised")))
\* Two bytes that aren't UTF-8 are reported differently from unknown codes.
IsUtf8Pair(b) == (b[1] < 128 /\ b[2] < 128) \/ (b[1] \in 194..223 /\ b[2] \in 128..191)
ResponseCode(b) ==
    Exactly(2, b,
        IF ~IsUtf8Pair(b) THEN Unseen(Err("number"))
        ELSE IF b[1] \in 48..57 /\ b[2] \in 48..57
             THEN LET c == ReadOut[b[1]] \o ReadOut[b[2]] IN
                  IF c \in DOMAIN ResponseTable THEN Seen(<<PlainLine(0, ResponseTable[c])>>)
                  ELSE Unseen(Err("unrecognised"))
             ELSE Unseen(Err("unrecognised")))
=============================================================================
