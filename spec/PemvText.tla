------------------------------ MODULE PemvText ------------------------------
(***************************************************************************)
(* Text, lines and numbers as the program writes them.                     *)
(*                                                                         *)
(* Bytes and characters are numbers (code points); everything written is a *)
(* sequence of lines.  A line has an indentation, n tabs wide, and a        *)
(* sequence of spans <<style, text>>, where the style is one of            *)
(*     ""     plain            "b"  bold            "h"  bold cyan         *)
(*     "red"  error            "yel" warning                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255

\* The concatenation of the strings s[lo] .. s[hi].
RECURSIVE CatRange(_, _, _)
CatRange(s, lo, hi) ==
    IF hi < lo THEN ""
    ELSE IF hi = lo THEN s[lo]
    ELSE LET m == (lo + hi) \div 2 IN CatRange(s, lo, m) \o CatRange(s, m + 1, hi)
Cat(s) == CatRange(s, 1, Len(s))

\* The concatenation of a sequence of sequences.
RECURSIVE ConcatRange(_, _, _)
ConcatRange(s, lo, hi) ==
    IF hi < lo THEN <<>>
    ELSE IF hi = lo THEN s[lo]
    ELSE LET m == (lo + hi) \div 2 IN ConcatRange(s, lo, m) \o ConcatRange(s, m + 1, hi)
Concat(s) == ConcatRange(s, 1, Len(s))

Times(str, n) == Cat([i \in 1..n |-> str])

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
Hex2 == [b \in Byte |-> HexDigits[(b \div 16) + 1] \o HexDigits[(b % 16) + 1]]
HexOf(bytes) == Cat([i \in 1..Len(bytes) |-> Hex2[bytes[i]]])
HexSpaced(bytes) ==
    Cat([i \in 1..Len(bytes) |-> IF i = 1 THEN Hex2[bytes[i]] ELSE " " \o Hex2[bytes[i]]])

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
ReadOut == [b \in Byte |-> IF b \in 32..126 THEN SubSeq(Printable, b - 31, b - 31) ELSE "."]

Bit(b, k) == (b \div (2^k)) % 2          \* bit k, counted from 0 at the right
Bits8 == [b \in Byte |-> Cat([i \in 1..8 |-> IF Bit(b, 8 - i) = 1 THEN "1" ELSE "0"])]

(***************************************************************************)
(* Decimal numbers.  TLC's integers end at 2^31, amounts don't: an amount  *)
(* is kept as a sequence of decimal digits, most significant first.        *)
(***************************************************************************)
DigitText == <<"0","1","2","3","4","5","6","7","8","9">>
Dec(n) == ToString(n)

\* digits * 256 + b, for a sequence of digits in reverse order
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, i, carry) ==
    IF i > Len(ds)
    THEN IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o MulAdd(ds, i, carry \div 10)
    ELSE LET v == ds[i] * 256 + carry IN <<v % 10>> \o MulAdd(ds, i + 1, v \div 10)
DecDigitsRev(bytes) == FoldLeft(LAMBDA acc, b : MulAdd(acc, 1, b), <<>>, bytes)
\* the digits of a big-endian number, without leading zeroes (<<0>> for zero)
DecDigits(bytes) ==
    LET r == DecDigitsRev(bytes) IN
    IF \A i \in 1..Len(r) : r[i] = 0 THEN <<0>> ELSE
    LET top == CHOOSE i \in 1..Len(r) : r[i] # 0 /\ \A j \in (i+1)..Len(r) : r[j] = 0
    IN [i \in 1..top |-> r[top + 1 - i]]
PadDigits(ds, width) ==
    Times("0", width - Len(ds)) \o Cat([i \in 1..Len(ds) |-> DigitText[ds[i] + 1]])

Max2(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* Lines                                                                   *)
(***************************************************************************)
Line(n, spans) == [n |-> n, s |-> spans]
PlainLine(n, text) == Line(n, << <<"", text>> >>)
BlankLine == Line(0, <<>>)
Indent(lines, d) == [i \in 1..Len(lines) |-> [lines[i] EXCEPT !.n = @ + d]]
\* The text of a line without its indentation.
TextOf(line) == Cat([i \in 1..Len(line.s) |-> line.s[i][2]])
\* Adjacent spans of one style merged, empty ones dropped.
MergeSpans(spans) ==
    FoldLeft(LAMBDA acc, sp :
                IF sp[2] = "" THEN acc
                ELSE IF acc # <<>> /\ acc[Len(acc)][1] = sp[1]
                     THEN [acc EXCEPT ![Len(acc)] = <<sp[1], @[2] \o sp[2]>>]
                     ELSE Append(acc, sp),
             <<>>, spans)
\* What is left of a line's styles when colours are off.
Unstyled(line) == [line EXCEPT !.s = MergeSpans([i \in 1..Len(line.s) |-> <<"", line.s[i][2]>>])]
Styled(line) == [line EXCEPT !.s = MergeSpans(line.s)]

(***************************************************************************)
(* Errors                                                                  *)
(***************************************************************************)
Err(kind) == [kind |-> kind, expected |-> 0, found |-> 0]
ErrBytes(kind, expected, found) == [kind |-> kind, expected |-> expected, found |-> found]
NoErr == Err("none")

WrongCount(text, e) ==
    "The wrong number of bytes were provided for the value. Perhaps you provided the wrong value? Expected: "
    \o text \o " " \o Dec(e.expected) \o ", Found: " \o Dec(e.found)

ErrText(e) ==
    CASE e.kind = "exactly" -> WrongCount("exactly", e)
      [] e.kind = "atleast" -> WrongCount("greater than or equal to", e)
      [] e.kind = "indivisible" -> "The number of bytes provided is not divisible into the components of the value. Please check the format of the input data."
      [] e.kind = "number" -> "The value provided is not a valid number, or is too large."
      [] e.kind = "noncompliant" -> "The value provided isn't compliant with the specifications in some way, or this tool is out of date. If you have reason to believe it's the latter, please make sure you're using the latest version then open an issue on GitHub."
      [] e.kind = "nonccd" -> "The value provided isn't compliant with the EMV Common Core Definitions (CCD) in some way. This isn't a problem necessarily, but it does mean that the value can't be parsed."
      [] e.kind = "unsupported" -> "The value provided is in some way unsupported. If you have genuine need for the unsupported feature, please open an issue on GitHub."
      [] e.kind = "unrecognised" -> "The value provided is in some way unrecognised. This isn't a problem necessarily, but it does mean that the value can't be parsed."
      [] OTHER -> "?"

(***************************************************************************)
(* The hexadecimal digits of a text, and the bytes they make up.           *)
(***************************************************************************)
NibbleOf == [c \in 0..127 |-> IF c \in 48..57 THEN c - 48
                              ELSE IF c \in 65..70 THEN c - 55
                              ELSE IF c \in 97..102 THEN c - 87 ELSE -1]
IsHexDigit(c) == c \in 0..127 /\ NibbleOf[c] >= 0
BytesOfNibbles(ns) == [i \in 1..(Len(ns) \div 2) |-> NibbleOf[ns[2*i - 1]] * 16 + NibbleOf[ns[2*i]]]
\* Tolerant: everything but hexadecimal digits is skipped.
HexBytes(text) == BytesOfNibbles(SelectSeq(text, IsHexDigit))
IsStrictHex(text) == \A i \in 1..Len(text) : IsHexDigit(text[i])
=============================================================================
