----------------------------- MODULE Bitfields ------------------------------
(***************************************************************************)
(* Values made up of bits with a meaning, and the diagrams that explain    *)
(* them.                                                                   *)
(*                                                                         *)
(* A field is <<byte, bit, width, severity, text, coding>>: it starts at   *)
(* the given bit (7 is the leftmost) of the given byte (counted from 0)    *)
(* and extends to the right.  Flags (coding "flag") are shown when set,    *)
(* other fields always, with their value after the text.                   *)
(***************************************************************************)
EXTENDS Dictionary

F(byte, bit, sev, text) == [byte |-> byte, bit |-> bit, w |-> 1, sev |-> sev, text |-> text, coding |-> "flag"]
V(byte, bit, w, text, coding) == [byte |-> byte, bit |-> bit, w |-> w, sev |-> "", text |-> text, coding |-> coding]

\* EMV Book 3, table 42
TvrFields == <<
    F(0, 7, "", "Offline data authentication was not performed"),
    F(0, 6, "red", "SDA (Static Data Authentication) failed"),
    F(0, 5, "red", "ICC data missing"),
    F(0, 4, "red", "Card appears on terminal exception file"),
    F(0, 3, "red", "DDA (Dynamic Data Authentication) failed"),
    F(0, 2, "red", "CDA (Combined Data Authentication) failed"),
    F(1, 7, "yel", "ICC and terminal have different application versions"),
    F(1, 6, "red", "Expired application"),
    F(1, 5, "red", "Application not yet effective"),
    F(1, 4, "red", "Requested service not allowed for card product"),
    F(1, 3, "yel", "New card"),
    F(2, 7, "yel", "Cardholder verification was not successful"),
    F(2, 6, "yel", "Unrecognised CVM (Cardholder Verification Method)"),
    F(2, 5, "red", "PIN try limit exceeded"),
    F(2, 4, "red", "PIN entry required and PIN pad not present or not working"),
    F(2, 3, "yel", "PIN entry required, PIN pad present, but PIN was not entered (PIN bypass)"),
    F(2, 2, "", "Online PIN entered"),
    F(3, 7, "", "Transaction exceeds floor limit"),
    F(3, 6, "", "Lower consecutive offline limit exceeded"),
    F(3, 5, "", "Upper consecutive offline limit exceeded"),
    F(3, 4, "", "Transaction selected randomly for online processing"),
    F(3, 3, "", "Merchant forced transaction online"),
    F(4, 7, "", "Default TDOL (Transaction Certificate Data Object List) used"),
    F(4, 6, "red", "Issuer authentication failed"),
    F(4, 5, "red", "Script processing failed before final GENERATE AC"),
    F(4, 4, "red", "Script processing failed after final GENERATE AC") >>

\* EMV Book 3, table 43
TsiFields == <<
    F(0, 7, "", "Offline data authentication was performed"),
    F(0, 6, "", "Cardholder verification was performed"),
    F(0, 5, "", "Card risk management was performed"),
    F(0, 4, "", "Issuer authentication was performed"),
    F(0, 3, "", "Terminal risk management was performed"),
    F(0, 2, "", "Script processing was performed") >>

\* EMV Book 4, tables 25 to 27
TermCapFields == <<
    F(0, 7, "", "Manual key entry"),
    F(0, 6, "", "Magnetic stripe (MSR)"),
    F(0, 5, "", "IC with contacts (ICC)"),
    F(1, 7, "", "Plaintext PIN for ICC verification"),
    F(1, 6, "", "Enciphered PIN for online verification"),
    F(1, 5, "", "Signature (paper)"),
    F(1, 4, "", "Enciphered PIN for offline verification"),
    F(1, 3, "", "No CVM Required"),
    F(2, 7, "", "SDA (Static Data Authentication)"),
    F(2, 6, "", "DDA (Dynamic Data Authentication)"),
    F(2, 5, "", "Card capture (ATM retaining the card)"),
    F(2, 3, "", "CDA (Combined Data Authentication)") >>

\* EMV Book 4, tables 28 to 32
AddTermCapFields == <<
    F(0, 7, "", "Cash"),
    F(0, 6, "", "Goods"),
    F(0, 5, "", "Services"),
    F(0, 4, "", "Cashback"),
    F(0, 3, "", "Inquiry (request for information about one of the cardholder's accounts)"),
    F(0, 2, "", "Transfer (between cardholder accounts at the same financial institution)"),
    F(0, 1, "", "Payment (from a cardholder account to another party)"),
    F(0, 0, "", "Administrative"),
    F(1, 7, "", "Cash Deposit (into a bank account related to an application on the card used)"),
    F(2, 7, "", "Numeric keys"),
    F(2, 6, "", "Alphabetic and special characters keys"),
    F(2, 5, "", "Command keys"),
    F(2, 4, "", "Function keys"),
    F(3, 7, "", "Print, attendant"),
    F(3, 6, "", "Print, cardholder"),
    F(3, 5, "", "Display, attendant"),
    F(3, 4, "", "Display, cardholder"),
    F(3, 1, "", "ISO/IEC 8859 Code Table 10"),
    F(3, 0, "", "ISO/IEC 8859 Code Table 9"),
    F(4, 7, "", "ISO/IEC 8859 Code Table 8"),
    F(4, 6, "", "ISO/IEC 8859 Code Table 7"),
    F(4, 5, "", "ISO/IEC 8859 Code Table 6"),
    F(4, 4, "", "ISO/IEC 8859 Code Table 5"),
    F(4, 3, "", "ISO/IEC 8859 Code Table 4"),
    F(4, 2, "", "ISO/IEC 8859 Code Table 3"),
    F(4, 1, "", "ISO/IEC 8859 Code Table 2"),
    F(4, 0, "", "ISO/IEC 8859 Code Table 1") >>

\* EMV Book 3, table CCD 9
CvrFields == <<
    V(0, 7, 2, "Application cryptogram type returned in 2nd GENERATE AC: ", "gac2"),
    V(0, 5, 2, "Application cryptogram type returned in 1st GENERATE AC: ", "gac1"),
    F(0, 3, "", "CDA (Combined Data Authentication) performed"),
    F(0, 2, "", "Offline DDA (Dynamic Data Authentication) performed"),
    F(0, 1, "yel", "Issuer authentication not performed"),
    F(0, 0, "red", "Issuer authentication failed"),
    V(1, 7, 4, "PIN try count: ", "dec"),
    F(1, 3, "", "Offline PIN verification performed"),
    F(1, 2, "red", "Offline PIN verification performed and PIN not successfully verified"),
    F(1, 1, "red", "PIN try limit exceeded"),
    F(1, 0, "yel", "Last online transaction not completed"),
    F(2, 7, "", "Lower offline transaction count limit exceeded"),
    F(2, 6, "", "Upper offline transaction count limit exceeded"),
    F(2, 5, "", "Lower cumulative offline amount limit exceeded"),
    F(2, 4, "", "Upper cumulative offline amount limit exceeded"),
    F(2, 3, "", "Issuer-discretionary bit 1"),
    F(2, 2, "", "Issuer-discretionary bit 2"),
    F(2, 1, "", "Issuer-discretionary bit 3"),
    F(2, 0, "", "Issuer-discretionary bit 4"),
    V(3, 7, 4, "Number of successfully processed issuer script commands containing secure messaging: ", "dec"),
    F(3, 3, "red", "Issuer script processing failed"),
    F(3, 2, "yel", "Offline data authentication failed on previous transaction"),
    F(3, 1, "", "Go online on next transaction"),
    F(3, 0, "yel", "Unable to go online") >>

\* EMV Book 3, section C7.1
CciFields == <<
    V(0, 7, 4, "IAD Format Code: ", "format"),
    V(0, 3, 4, "Cryptogram Version: ", "crypt") >>

\* EMV Book 3, tables 39 and 40; EMV Book 4, section A4
CvmResultFields == <<
    F(0, 6, "", "Apply succeeding CV Rule if this CVM is unsuccessful"),
    V(0, 5, 6, "Method: ", "method"),
    V(1, 7, 8, "Condition: ", "condition"),
    V(2, 7, 8, "Result: ", "result") >>

UnknownMethod == "Unknown (likely issuer or payment system-specific)"
UnknownCondition == "Unknown (likely payment system-specific)"
MethodName(v) == IF Hex2[v] \in DOMAIN MethodTable THEN MethodTable[Hex2[v]] ELSE UnknownMethod
ConditionName(v) == IF Hex2[v] \in DOMAIN ConditionTable THEN ConditionTable[Hex2[v]] ELSE UnknownCondition

CodeTexts ==
  [ gac1 |-> << "AAC (Application Authentication Cryptogram)", "TC (Transaction Certificate)",
                "ARQC (Authorization Request Cryptogram)", "RFU (Reserved For Use)" >>,
    gac2 |-> << "AAC (Application Authentication Cryptogram)", "TC (Transaction Certificate)",
                "Second GENERATE AC not requested", "RFU (Reserved For Use)" >>,
    result |-> << "Unknown", "Failed", "Successful" >> ]

\* The text for the value v of a coding; "" if it has none.
ValueText(coding, v) ==
    CASE coding = "flag" -> ""
      [] coding = "dec" -> Dec(v)
      [] coding = "method" -> MethodName(v)
      [] coding = "condition" -> ConditionName(v)
      [] coding = "format" -> IF v = 10 THEN "Format A" ELSE ""
      [] coding = "crypt" -> IF v = 5 THEN "Triple DES (3DES)" ELSE IF v = 6 THEN "AES" ELSE ""
      [] coding = "result" -> IF v < 3 THEN CodeTexts.result[v + 1] ELSE ""
      [] OTHER -> CodeTexts[coding][v + 1]

FieldValue(f, bytes) == (bytes[f.byte + 1] \div 2^(f.bit + 1 - f.w)) % (2^f.w)
IsShown(f, bytes) == f.coding # "flag" \/ FieldValue(f, bytes) = 1
IsDefined(f, bytes) == f.coding = "flag" \/ ValueText(f.coding, FieldValue(f, bytes)) # ""
FieldText(f, bytes) == f.text \o ValueText(f.coding, FieldValue(f, bytes))
\* The severity of a CVM result depends on its value.
FieldSeverity(f, bytes) ==
    IF f.coding = "result" THEN (IF FieldValue(f, bytes) = 1 THEN "red" ELSE "") ELSE f.sev

\* The bits that have a meaning.
UsedBits(fields, n) ==
    [i \in 1..n |-> { k \in 0..7 : \E j \in 1..Len(fields) :
        fields[j].byte = i - 1 /\ k <= fields[j].bit /\ k > fields[j].bit - fields[j].w }]
RECURSIVE SumBits(_, _)
SumBits(b, ks) == IF ks = {} THEN 0
                  ELSE LET k == CHOOSE x \in ks : TRUE IN Bit(b, k) * 2^k + SumBits(b, ks \ {k})
UsedValue(fields, bytes) ==
    LET u == UsedBits(fields, Len(bytes)) IN [i \in 1..Len(bytes) |-> SumBits(bytes[i], u[i])]

(***************************************************************************)
(* The diagram.  Bits are numbered from the right over the whole value;    *)
(* there's a blank between bytes.                                          *)
(***************************************************************************)
Offset(f, n) == (n - 1 - f.byte) * 8 + f.bit
Column(o, n) == LET left == n * 8 - 1 - o IN left + (left \div 8)

Bar == "│"      Corner == "└"
Bracket(w) == IF w = 1 THEN Bar ELSE "├" \o Times("─", w - 2) \o "┘"
Blanks(n) == Times(" ", n)

\* Pieces of text put at given columns, with blanks between them: a sequence
\* of <<column, width, text>>, from left to right.
AtColumns(ps) ==
    Cat([i \in 1..Len(ps) |->
           Blanks(ps[i][1] - (IF i = 1 THEN 0 ELSE ps[i-1][1] + ps[i-1][2])) \o ps[i][3]])

BitRow(bytes) == Cat([i \in 1..Len(bytes) |-> (IF i = 1 THEN "" ELSE " ") \o Bits8[bytes[i]]])

\* The fields shown for a value, from left to right, as [o, w, text, sev].
Shown(fields, bytes) ==
    LET n == Len(bytes)
        s == SelectSeq(fields, LAMBDA f : IsShown(f, bytes))
    IN [i \in 1..Len(s) |-> [o |-> Offset(s[i], n), w |-> s[i].w, text |-> FieldText(s[i], bytes),
                             sev |-> FieldSeverity(s[i], bytes)]]

BracketLine(shown, n) ==
    PlainLine(0, AtColumns([i \in 1..Len(shown) |->
        <<Column(shown[i].o, n), shown[i].w, Bracket(shown[i].w)>>]))
FieldLine(shown, k, n, severities) ==
    LET arms == AtColumns([i \in 1..k |->
                    <<Column(shown[i].o, n), 1, IF i = k THEN Corner ELSE Bar>>])
    IN Line(0, << <<"", arms \o " ">>,
                  <<IF severities THEN shown[k].sev ELSE "", shown[k].text>> >>)
Diagram(fields, bytes, severities) ==
    LET n == Len(bytes)
        shown == Shown(fields, bytes)
        wide == \E i \in 1..Len(shown) : shown[i].w > 1
    IN << Line(0, << <<"b", BitRow(UsedValue(fields, bytes))>> >>) >>
       \o (IF wide THEN << BracketLine(shown, n) >> ELSE <<>>)
       \o [i \in 1..Len(shown) |-> FieldLine(shown, Len(shown) + 1 - i, n, severities)]

\* Fields are listed from left to right and don't overlap.
FieldsAreWellOrdered(fields, n) ==
    /\ \A i \in 1..Len(fields) : fields[i].byte \in 0..(n-1) /\ fields[i].bit + 1 >= fields[i].w
    /\ \A i \in 1..(Len(fields) - 1) :
          Offset(fields[i], n) - fields[i].w >= Offset(fields[i+1], n)
ASSUME /\ FieldsAreWellOrdered(TvrFields, 5) /\ FieldsAreWellOrdered(TsiFields, 2)
       /\ FieldsAreWellOrdered(TermCapFields, 3) /\ FieldsAreWellOrdered(AddTermCapFields, 5)
       /\ FieldsAreWellOrdered(CvrFields, 5) /\ FieldsAreWellOrdered(CciFields, 1)
       /\ FieldsAreWellOrdered(CvmResultFields, 3)
=============================================================================
