#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
TESTS = "The existing tests are a few dozen fixed examples per parser, checked on the parsed structures; nothing runs the program as a user does or looks at its output."
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
BER="src/emv/tlv_parsing/ber_tlv.rs"; ING="src/emv/tlv_parsing/ingenico_tlv.rs"; TLV="src/emv/tlv_parsing/mod.rs"
AUTO="src/emv/tlv_parsing/auto_tlv.rs"; PROC="src/emv/tlv_parsing/process_emv_tag.rs"; MAIN="src/main.rs"; CLI="src/cli.rs"; UTIL="src/util.rs"
CFG="src/config/mod.rs"; COL="src/config/colour_choice.rs"; BIT="src/emv/bitflag_values.rs"; MAC="src/macros.rs"
OUT=["stdout and stderr of the program", "exit status of the program"]

p("C01","BER-TLV blocks are listed object by object, byte for byte",
  "For hex input that encodes a sequence of complete BER-TLV data objects, `--ber-tlv` lists exactly those data objects, none missing, none invented, each with its complete tag (one byte or many), the length of its value in bytes, and exactly the bytes of its value. This holds for every length up to the size of the input and for every encoding of a length: short form, and long form with one to four length bytes, minimal or not.",
  ["inputs"],"every sequence of data objects, every tag of one or more bytes, every value length and every length encoding",
  "Quantifies over all encodings; the tests hold 17 fixed blocks of at most 20 bytes, all with one-byte lengths below 128.",
  [BER,TLV,UTIL],[("tag, length and value scanner",BER+": parse"),("big-endian length",UTIL+": byte_slice_to_u32"),("listing",TLV+": display_breakdown")],OUT)
p("C02","Malformed BER-TLV data is rejected as a whole",
  "If the bytes given to `--ber-tlv` are not a sequence of complete data objects (a tag that never ends, no length, fewer length bytes than announced, a value shorter than its length says) or a length takes more than four bytes, nothing at all is written to standard output and standard error explains why. Bytes that are such a sequence are never rejected for their structure.",
  ["inputs"],"every byte sequence: every prefix, every mutation and every random string",
  "Quantifies over all byte strings that are not valid encodings; the tests reject six fixed strings.",
  [BER,MAIN,"src/error.rs"],[("bounds checks of the scanner",BER+": parse"),("error to stderr",MAIN+": main")],OUT)
p("C03","Constructed data objects are opened, everything else is not",
  "Below a constructed data object the listing shows, recursively and in both TLV formats, the data objects its value consists of, if the value as a whole is such a sequence; primitive and masked data objects, and constructed ones whose value isn't well-formed, show no children and never make the listing fail. The constructed object's own length and value are shown in any case, and nesting is followed through at least 200 levels and is harmless however deep it is.",
  ["inputs"],"every tree of data objects, every nesting depth, every mix of well-formed and malformed values at every level",
  "Quantifies over trees of any depth and over malformed values at any level; the tests nest at most two levels.",
  [BER,ING,TLV],[("descent into constructed values",BER+": get_child_block"),("recursive listing",TLV+": ProcessedEmvNode::display_breakdown")],OUT)
p("C04","A value counts as masked exactly when it's all one masking character",
  "A data object is reported as masked if and only if its value has at least two bytes (in the Ingenico format: two characters of value text) and all of them equal one and the same effective masking character. A mixture of several masking characters, a single character, an empty value, or a character that isn't configured is never masked, at any nesting level.",
  ["inputs","configurations"],"every value, every set of masking characters, both formats, every nesting level",
  "Quantifies over values and sets of masking characters; the tests use '*' only, in eight fixed values.",
  [TLV,BER,ING],[("is_masked_u8 / is_masked_str",TLV),("where they're applied",BER+": parse; "+ING+": parse")],OUT)
p("C05","Masked data objects are tolerated and reveal nothing",
  "A masked data object is listed with its tag, its name and a mask marker, with an unknown length, and with neither raw bytes nor decoded value nor child data objects. Masking the value of any data object in a block that could otherwise be listed, whatever its tag, never makes the listing fail and leaves the entries of the data objects that don't contain it as they were.",
  ["inputs","configurations"],"every tag (decodable ones included), every position in a block, both formats, every masking character",
  "Quantifies over tags, positions and formats; the tests check the parsed structure of four masked values and never the listing or the typed tags.",
  [TLV,PROC],[("masked values bypass decoding",TLV+": parse_raw, parse_raw_unrecognised"),("masked display",TLV+": RawEmvTag::display_breakdown")],OUT)
p("C06","Ingenico TLV blocks are listed object by object, byte for byte",
  "For input that is a sequence of well-formed Ingenico data objects (type character, hexadecimal tag, `:`, hexadecimal length, `:`, `a` or `h`, that many bytes as text or as hexadecimal), each followed by one separator character of any kind except perhaps the last, `--ingenico-tlv` lists exactly the data objects of type `T` with their tag (without leading zero bytes), length and value; those of other types are left out without affecting the rest. Whether a value was given as text or as hexadecimal, and the case of hexadecimal digits, makes no difference to the result.",
  ["inputs"],"every sequence of data objects, types, tags, lengths, both data formats and all separators",
  "Quantifies over all blocks; the tests parse a dozen fixed strings with values below 12 bytes.",
  [ING,UTIL],[("field scanner",ING+": parse"),("leading zero trimming",UTIL+": trim_leading_0_bytes")],OUT)
p("C07","Malformed Ingenico TLV data is rejected as a whole",
  "If the text given to `--ingenico-tlv` isn't a sequence of well-formed data objects (a missing field, a tag or length or hexadecimal value with other characters than hexadecimal digits, an unknown data format, fewer characters than the length says, non-ASCII text, or a length field of more than four bytes), be it in a data object of type `T` or of another type, nothing is written to standard output and standard error explains why. Text that is such a sequence is never rejected for its structure.",
  ["inputs"],"every text: every prefix, every mutation, every random string over the format's alphabet",
  "Quantifies over all texts that aren't valid encodings; the tests reject a handful of fixed strings.",
  [ING,MAIN],[("bounds and digit checks of the scanner",ING+": parse"),("error to stderr",MAIN+": main")],OUT)
p("C08","Automatic parsing agrees with the parser it names",
  "`--auto-tlv` lists what `--ingenico-tlv` lists for the same input whenever that format parses, otherwise what `--ber-tlv` lists whenever that one parses, preceded by a line naming the format used, and otherwise reports the input as unrecognised and lists nothing. If the data objects of the detected format can't be decoded, the error is reported and nothing is listed, the format line included.",
  ["inputs","configurations"],"every input string under every sorting and masking setting",
  "Relates three operations over all inputs; the tests call the detector on five fixed strings.",
  [AUTO,MAIN],[("order of attempts",AUTO+": parse"),("headline only on success",MAIN+": main")],OUT)
p("C09","Sorting orders each level by tag, stably, and changes nothing else",
  "With sorting on, the data objects of every level of a listing appear in ascending lexicographic order of their tag bytes, those with the same tag in input order; with sorting off, every level is in input order. Apart from the order, the two listings show the same data objects with the same contents, and children stay with their parent.",
  ["inputs","configurations"],"every tree of data objects, any number of siblings, duplicates and tags that are prefixes of others",
  "Quantifies over all permutations and multiplicities at all levels; the tests never sort.",
  [TLV,MAIN],[("recursive stable sort",TLV+": sort_nodes, Ord for RawEmvTag"),("sort switch",MAIN+": main")],OUT)
p("C10","Settings take effect by a fixed precedence, each one separately",
  "For each of colour, masking characters and sorting separately, the value from the command line wins over the environment variable, which wins over the configuration file's `global` profile, then its selected profile (`PEMV_PROFILE`, case-insensitive), then its `default` profile, then the built-in default (colour only on a terminal, `*`, sorting on). The file is the one named by `PEMV_CONFIG`, otherwise `pemv.toml`, looked up in the working directory and then in its ancestors, nearest first; profiles that aren't selected have no effect.",
  ["configurations"],"every combination of which of the layers define which setting with which value, file locations and selected profiles",
  "Quantifies over all combinations of layers; no test touches the configuration.",
  [CFG,CLI,MAIN,COL],[("layering",CFG+": figment"),("command line on top, defaults excluded",CFG+": apply_cli_arguments")],
  ["effect of the settings on listings: what is masked, how it's sorted, whether it's coloured"])
p("C11","Tags are identified the same way everywhere",
  "For every tag, `--identify` shows the tag, its name from the EMV data dictionary or `<Unknown>`, its class from the two high bits and whether it's primitive or constructed from the third bit of its first byte; no tag has another tag's name. In a TLV listing a data object with that tag carries the same name, except for the annotations of values that can't be decoded.",
  ["inputs"],"all tags: every one-byte tag, every two-byte tag, and longer ones",
  "Quantifies over all tags; the code marks the dictionary as not tested at all.",
  [PROC,"src/emv/tag_basic_info.rs",BER,TLV],[("dictionary",PROC+": identify_tag"),("class and type bits",BER+": parse_tag_metadata")],OUT)
p("C12","Values in a listing are decoded as by the dedicated operation, or say why not",
  "In TLV listings of either format, at any level, each unmasked data object with a decodable tag (5F30, 8A, 8E, 95, 9B, 9C, 9F0D, 9F0E, 9F0F, 9F10, 9F33, 9F34, 9F35, 9F39, 9F40) shows the decoding of its own bytes, identical up to indentation to what the dedicated operation (where there is one) shows for these bytes, and no other data object shows a decoding. An unrecognised response code or transaction type and issuer application data that isn't CCD-compliant are listed undecoded with a name that says so; any other undecodable value makes the operation report that error and list nothing.",
  ["inputs"],"every value of every decodable tag, at every position and level, in both formats",
  "Relates the listing and the dedicated operations over all values; the code marks the dispatch as not tested at all.",
  [PROC,TLV],[("dispatch by tag",PROC+": process_emv_tag"),("fallback annotations",TLV+": parse_raw_unrecognised")],OUT)
p("C13","Every bit of a bit-field value is explained, and only those set",
  "For TVR, TSI, CVR, terminal capabilities, additional terminal capabilities and the three issuer action codes, the breakdown of a value shows the EMV meaning of exactly those defined bits that are set, and of every multi-bit field with its number or code, from the rightmost field of the value to the leftmost. Each shown bit row reproduces the value's bits with bits that have no defined meaning shown as zero, and the meaning of one bit doesn't depend on the others.",
  ["inputs"],"every value of 2, 3 or 5 bytes; every bit separately and in combination",
  "Quantifies over 2^40 values per type; the tests compare shapes of the structures for single bits and never look at a meaning.",
  ["src/emv/tvr.rs","src/emv/tsi.rs","src/emv/ccd/cvr.rs","src/emv/terminal_capabilities.rs","src/emv/additional_terminal_capabilities.rs","src/emv/iac/default.rs","src/emv/iac/denial.rs","src/emv/iac/online.rs",MAC],
  [("bit tables",MAC+": bitflag_value"),("rows",BIT+": display_breakdown")],OUT)
p("C14","The lines of a bit diagram point at the bits they explain",
  "In every bit-field breakdown each explanation hangs on a corner in the column of the leftmost bit of its field, and vertical lines run in the columns of exactly those fields that are explained further down. A bracket line spanning the whole width of each field follows the bits whenever at least one shown field is wider than a bit, and only then; the same diagram is drawn at every indentation.",
  ["inputs"],"every combination of set bits of every bit-field type, at every nesting level",
  "Quantifies over all combinations of fields; no test looks at the diagram.",
  [BIT],[("bracket line and arms",BIT+": display_breakdown")],OUT)
p("C15","CVM lists are broken down rule by rule",
  "The breakdown of a CVM list shows all its rules, numbered in order, each with the meaning of its method, of its condition and of what happens if it's unsuccessful, where codes without a defined meaning are shown as unknown. The X and Y amounts are the first two big-endian 32-bit numbers, zero-padded to a common width of at least three digits, and are shown if and only if one of them isn't zero or a rule refers to them.",
  ["inputs"],"every list: every rule byte pair, every number of rules, every pair of 32-bit amounts",
  "Quantifies over 2^16 rules, any number of them and all amounts; the tests parse one list and never display one.",
  ["src/emv/cvm_list.rs","src/emv/cv_rule/mod.rs","src/emv/cv_rule/cv_method.rs","src/emv/cv_rule/cvm_condition.rs",UTIL],
  [("split into amounts and rules","src/emv/cvm_list.rs: try_from"),("when amounts are shown","src/emv/cvm_list.rs: display_breakdown")],OUT)
p("C16","CVM results show the rule that was applied and its outcome",
  "The breakdown of CVM results shows the method in the low six bits and whether a following rule applies (the seventh bit) of the first byte, the condition code in the second, and the result in the third byte as unknown, failed or successful; codes of methods and conditions without a defined meaning are shown as unknown, with their own bits. Any other result byte is rejected with an error.",
  ["inputs"],"all values of three bytes",
  "Quantifies over 2^24 values; the tests parse a handful.",
  ["src/emv/cvm_results.rs","src/emv/cv_rule/mod.rs","src/emv/cv_rule/cv_method.rs","src/emv/cv_rule/cvm_condition.rs"],
  [("rule and result","src/emv/cvm_results.rs: try_from, get_bit_display_information")],OUT)
p("C17","Issuer application data is decoded only if it follows the CCD layout",
  "Issuer application data is decoded exactly when it's 32 bytes long, both of its length bytes (first and seventeenth) are 15, its format code is A and its cryptogram version is one of the two defined; the breakdown then shows the identifier, the key index, the card verification results, the eight counter bytes and the fifteen discretionary bytes, each from its own position. Anything else is reported as not CCD-compliant by the dedicated operation, and listed undecoded as such in TLV listings.",
  ["inputs"],"every byte string of every length; every value of each byte",
  "Quantifies over all values of 32 bytes and all other lengths; the tests cover one valid value and a few errors.",
  ["src/emv/ccd/iad.rs","src/emv/ccd/cci.rs","src/emv/ccd/cvr.rs",PROC],[("layout checks","src/emv/ccd/iad.rs: try_from, parse_format_data")],OUT)
p("C18","Service codes are read digit by digit",
  "A service code from 0 to 999, given as a decimal number or as two BCD bytes in a data object, is shown with three digits and with the ISO/IEC 7813 meaning of each of its digits: interchange and technology from the first, authorisation from the second, services and PIN requirements from the third. Anything that isn't such a number is rejected with an error.",
  ["inputs"],"all numbers, all two-byte values and all other texts",
  "Quantifies over all 1000 codes and all rejected inputs; the tests check ten codes' parsed structure.",
  ["src/non_emv/service_code.rs",UTIL],[("digits and tables","src/non_emv/service_code.rs: try_from"),("number parsing",UTIL+": parse_str_to_u16")],OUT)
p("C19","Coded values have the meaning of their code, and unknown codes have none",
  "Authorisation response codes, transaction types, terminal types and POS entry modes are shown with the meaning defined for their code, for every defined code including synonymous ones. A code without a defined meaning is never shown with one: an unrecognised response code or transaction type is listed with a name that says so, while an undefined terminal type or POS entry mode is reported as an error.",
  ["inputs"],"all values of one byte (three tables) and of two bytes (response codes)",
  "Quantifies over 256 and 65536 values; the tests check one or two codes per table.",
  ["src/emv/authorisation_response_code.rs","src/emv/transaction_type.rs","src/emv/terminal_type.rs","src/emv/pos_entry_mode.rs",PROC],[("code tables",MAC+": enum_repr_fallible, enum_no_repr_fallible")],OUT)
p("C20","Listings are laid out so that their structure can be read off",
  "In TLV listings every line belonging to a data object at nesting level n is indented by n tabs (its raw dump and decoding by one more), sibling data objects are separated by one empty line, and singular and plural of byte counts are right. The raw dump shows sixteen bytes per line as two upper-case hex digits each, the last line padded to the same width, followed by the same bytes as ASCII with everything outside 20 to 7E as a dot.",
  ["inputs"],"every tree and every value, every value length modulo 16, every byte value",
  "Quantifies over all trees and values; no test looks at any output.",
  [UTIL,TLV],[("dump",UTIL+": print_bytes_pretty"),("indentation",UTIL+": print_indentation"),("layout",TLV+": display_breakdown")],OUT)
p("C21","Hexadecimal input means its digits and nothing else",
  "Every operation that takes hexadecimal input reads the hexadecimal digits of its argument in order, two per byte, whatever their case and whatever else (blanks, punctuation, other letters, non-ASCII characters) stands between, before or after them, and ignores an unpaired last digit. Two arguments with the same digits therefore have the same output.",
  ["inputs"],"every argument string for each hexadecimal operation",
  "Quantifies over all strings; the tests check eight fixed strings on one helper function.",
  [UTIL,MAIN],[("parse_hex_str",UTIL)],OUT)
p("C22","Colours are decoration: they change nothing but colours",
  "Whatever the colour mode, the output without its escape sequences is the same, and no escape sequence is written with `never`, nor in `auto` mode when standard output isn't a terminal, `NO_COLOR` is set or `TERM` is unset or `dumb`; with `always` and `ansi` headers are bold cyan, tags and bit rows bold. Explanations of bits are coloured exactly by their severity (error red, warning yellow, otherwise none), except in issuer action codes, where they never are.",
  ["inputs","configurations"],"every operation and value under every colour mode, terminal and environment",
  "Quantifies over modes, environments and outputs; no test looks at any output.",
  ["src/output_colours.rs",COL,BIT,MAIN],[("mode by terminal",COL+": change_based_on_tty"),("severity colours",BIT+": display_breakdown")],
  OUT+["pseudo-terminal as standard output"])
p("C23","Every invocation ends in an answer or in a readable message",
  "For every command line, all environment variables and every configuration file the program, whose output can be written, terminates by itself, without being killed by a signal or a panic, and without an unbounded use of time, and has either written its result to standard output or a message to standard error. It writes a result or an error message, never both and never part of a result before an error.",
  ["inputs","configurations"],"every argument string up to the system's limit, every combination of options, environment and configuration file, malformed ones included",
  "Quantifies over all inputs and configurations; the tests call library functions with fixed arguments.",
  [MAIN,CFG,BER,TLV],[("errors as values","src/error.rs"),("bounded recursion",BER),("invalid configuration reported",MAIN+": main")],OUT)
p("C24","One operation per invocation, by any of its names",
  "Exactly one operation is performed per invocation, and each operation's long name, aliases and short form perform the same operation on the same argument. Two operations at once, an empty argument, an unknown option or option value, masking or sorting options without a TLV operation, and contradictory sorting options are refused with a usage error (exit status 2, nothing on standard output) and without performing anything; options without any operation show the help.",
  ["inputs","configurations"],"every combination of options and names, in every order",
  "Quantifies over combinations of options; one test checks that the definition is self-consistent.",
  [CLI,MAIN],[("operation group and requirements",CLI+": build_cli"),("dispatch",MAIN+": main")],OUT)
p("C25","Values of the wrong size are rejected with the sizes",
  "Every decodable value of a fixed or minimum size, given to its dedicated operation or occurring unmasked in a TLV listing at any level, is rejected when its size is wrong, with a message that states the expected and the found number of bytes, and nothing is listed; a CVM list whose rules don't come in pairs of bytes is rejected likewise with its own message. A value of the right size is never rejected for its size.",
  ["inputs"],"every size from zero up for every decodable type, at every level",
  "Quantifies over all sizes in all contexts; the tests try one size below and one above per type, and not in listings.",
  [MAC,"src/emv/cvm_list.rs","src/emv/cvm_results.rs","src/error.rs","src/non_emv/service_code.rs",TLV],[("size checks",MAC+": bitflag_value try_from"),("message","src/error.rs: Display")],OUT)
p("C26","Only the inputs matter, and nothing is left behind",
  "What an invocation writes and its exit status depend on its arguments, the `PEMV_` environment variables, the configuration file and, for colours in `auto` mode, the terminal, `NO_COLOR` and `TERM` alone: not on other environment variables (locale, home and configuration directories, window size), standard input, the size of the window, where its streams lead (a pipe, a file), the name it is called by, other files, or earlier invocations (help and usage messages may be wrapped to the window and show that name). Apart from writing to its two streams it changes nothing: no file or directory is created, written or removed, standard input isn't read, no other program is started and nothing is sent over a network.",
  ["inputs","configurations","histories"],"every invocation in every environment",
  "Quantifies over all surroundings of an invocation; tests run in one, and don't run the program.",
  [MAIN,CFG,COL,UTIL],[("what's read",CFG+": figment"),("output only through its streams",MAIN+": main")],OUT+["system calls (strace)","files before and after"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P))
