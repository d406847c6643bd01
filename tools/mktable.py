"""Writes PLANTED.md, the table of planted bugs, from their descriptions (development only)."""
import glob, json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Missed when they were first tried, and what was added to the checks then.
FIRST_MISSED = {
    "C04-nonascii-mask": "masking characters beyond Latin-1 whose low byte is another character",
    "C08-ber-first": "texts that are well-formed in both formats (`Detection`)",
    "C19-nul": "every two-byte response code, control characters included",
    "C25-found": "wrong sizes in nested lists, with other values around them",
    "C11-leading-zero": "`--identify` of every altered tag",
    "C20-deep": "dumps at depths up to 129",
    "C06-crlf": "`IngenicoSeparators` (every ASCII character and several white space ones as separator)",
    "C09-masked-first": "siblings with masked values among those that are sorted",
    "C12-long-list": "CVM lists of up to 256 rules",
    "C26-stdin": "arguments that programs by convention take for something else (`conventional`)",
    "C01-many": "many data objects on one level (`crowded`)",
    "C01-total": "many data objects on one level (`crowded`)",
    "C03-many-kids": "many data objects on one level (`crowded`)",
    "C06-many": "many data objects on one level (`crowded`)",
    "C09-many": "many data objects on one level (`crowded`)",
    "C21-long": "thousands of separators between digits (`far_apart`)",
    "C23-quadratic": "tens of thousands of data objects, with a limit of time (`swarms`)",
}
rows = []
for path in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(path, encoding="utf-8"))
    name = os.path.basename(os.path.dirname(path))
    rows.append((name, m["property"], m["needs"].rstrip("."), m["what_it_breaks"].rstrip("."), FIRST_MISSED.get(name, "")))
with open(os.path.join(VERIF, "PLANTED.md"), "w", encoding="utf-8") as f:
    f.write("# Planted bugs\n\n%d changes; each is caught by the quick check of its property. The last column says what was added to the\n"
            "checks for those that were missed when they were first tried.\n\n| bug | check | what it needs | what it breaks | added |\n|---|---|---|---|---|\n" % len(rows))
    for row in rows:
        f.write("| %s |\n" % " | ".join(x.replace("|", "/").replace("\n", " ") for x in row))
