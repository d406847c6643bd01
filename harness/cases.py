"""Random invocations, and the invocations that others are compared with.

The parts of an invocation: op, arg, colour, masks (list of characters), sort.
"""
import os, re
from concrete import arg_of
from sut import VERIF, case

LONG = {"identify": "identify", "auto": "auto-tlv", "ber": "ber-tlv", "ingenico": "ingenico-tlv", "tvr": "tvr", "iad": "ccd-iad",
        "cvr": "ccd-cvr", "tsi": "tsi", "cvmresults": "cvm-results", "cvmlist": "cvm-list", "servicecode": "service-code"}
NAMES = {"identify": (["identify", "id"], ""), "auto": (["auto-tlv", "auto", "parse-tlv", "parse"], "a"),
         "ber": (["ber-tlv", "ber"], "b"), "ingenico": (["ingenico-tlv", "ingenico"], "i"),
         "tvr": (["tvr", "95", "iac", "tac"], "t"), "iad": (["ccd-iad", "9F10", "9f10", "iad"], ""), "cvr": (["ccd-cvr", "cvr"], ""),
         "tsi": (["tsi", "9B", "9b"], ""), "cvmresults": (["cvm-results", "9F34", "9f34", "cvm-result"], "r"),
         "cvmlist": (["cvm-list", "8E", "8e"], ""), "servicecode": (["service-code", "5F30", "5f30"], "")}
TLV = ("auto", "ber", "ingenico")
HEX_OPS = ("identify", "ber", "tvr", "iad", "cvr", "tsi", "cvmresults", "cvmlist")
# operations for the values of some tags
VALUE_OPS = {(0x95,): "tvr", (0x9B,): "tsi", (0x8E,): "cvmlist", (0x9F, 0x34): "cvmresults", (0x9F, 0x10): "iad"}

DICTIONARY = open(os.path.join(VERIF, "spec", "Dictionary.tla"), encoding="utf-8").read()


def table(name):
    part = DICTIONARY[DICTIONARY.index("\n" + name + " == <<"):]
    return re.findall(r'<<"([^"]*)", "', part[:part.index(">> >>")])


TAGS = [bytes.fromhex(t) for t in table("TagNames")]
RESPONSES, TRANSACTIONS, TERMINALS, POS = (table(n) for n in ("ResponseCodes", "TransactionTypes", "TerminalTypes", "PosEntryModes"))
METHODS, CONDITIONS = table("CvMethods"), table("CvmConditions")
DECODABLE = [bytes.fromhex(t) for t in ("5F30 8A 8E 95 9B 9C 9F0D 9F0E 9F0F 9F10 9F33 9F34 9F35 9F39 9F40").split()]
CONSTRUCTED = [t for t in TAGS if t[0] & 0x20] + [b"\xE1", b"\x3F\x81\x05", b"\x7F\x21", b"\x30", b"\xFF\xFF\x01"]
PRIMITIVE = [t for t in TAGS if not t[0] & 0x20 and t not in DECODABLE] + [b"\x00", b"\xC1", b"\x1F\x80\x80\x01", b"\xDF\x81\x01", b"\x5F\x00"]


# ---------------------------------------------------------------- values
def some_bytes(r, n):
    how = r.random()
    if how < .3:
        return bytes(r.choice((0, 0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 255)) for _ in range(n))
    if how < .4:
        return bytes(r.randrange(32, 127) for _ in range(n))
    return bytes(r.randrange(256) for _ in range(n))


def good_value(tag, r):
    """A value that the tag may have."""
    t = tag.hex().upper()
    if t in ("95", "9F0D", "9F0E", "9F0F", "9F40"):
        return some_bytes(r, 5)
    if t == "9B":
        return some_bytes(r, 2)
    if t == "9F33":
        return some_bytes(r, 3)
    if t == "5F30":
        n = r.choice((r.randrange(1000), r.choice((101, 120, 201, 206, 221, 226, 520, 601, 620, 702, 799))))
        return bytes([n // 100, n // 10 % 10 * 16 + n % 10])
    if t == "8A":
        return r.choice((r.choice(RESPONSES).encode(), bytes([r.randrange(32, 127), r.randrange(32, 127)]), "é".encode()))
    if t == "8E":
        amounts = r.choice((b"\0" * 8, some_bytes(r, 8), bytes(r.choice((0, 0, 0, 1, 99, 128, 255)) for _ in range(8))))
        return amounts + b"".join(rule(r) for _ in range(r.choice((0, 1, 1, 2, 3, 5, 9, 10, 12)) if r.random() < .97 else r.choice((28, 59, 60, 61, 123, 124, 125, 126, 130, 255, 256))))
    if t == "9F34":
        return rule(r) + bytes([r.randrange(3)])
    if t == "9C":
        return bytes([r.choice((int(r.choice(TRANSACTIONS), 16), r.randrange(256)))])
    if t == "9F35":
        return bytes([int(r.choice(TERMINALS), 16)])
    if t == "9F39":
        return bytes([int(r.choice(POS), 16)])
    if t == "9F10":
        return iad(r)
    return some_bytes(r, r.choice((0, 1, 1, 2, 3, 4, 8, 15, 16, 17, 31, 33)))


def rule(r):
    m = r.choice((int(r.choice(METHODS), 16), r.randrange(64), 31, 30, 66)) | r.choice((0, 64, 0, 64, 128, 192))
    return bytes([m & 255, r.choice((int(r.choice(CONDITIONS), 16), int(r.choice(CONDITIONS), 16), r.randrange(256)))])


def iad(r):
    b = bytearray(some_bytes(r, 32))
    b[0], b[1], b[16] = 15, r.choice((0xA5, 0xA6)), 15
    for _ in range(r.choice((0, 0, 0, 1))):
        b[r.choice((0, 1, 16))] = r.randrange(256)
    if r.random() < .1:
        b = b[:r.randrange(33)] + bytes(r.choice((0, 0, 1, 16)))
    return bytes(b)


def value_for(tag, r, wrong=.02):
    v = good_value(tag, r)
    if r.random() < wrong:
        v = v[:-1] if r.random() < .5 and v else v + bytes([r.randrange(256)])
    return v


# ---------------------------------------------------------------- BER-TLV
def encode_length(n, form):
    return bytes([n]) if form == 0 else bytes([128 + form]) + n.to_bytes(form, "big")


def encode(tag, value, r=None):
    forms = [f for f in range(5) if (n := len(value)) < (128 if f == 0 else 256 ** f)]
    form = forms[0] if r is None or r.random() < .7 else r.choice(forms)
    return tag + encode_length(len(value), form) + value


def forest(r, masks, size, depth=0, wrong=.02):
    """Data objects as [tag, value or None, kids]."""
    out = []
    for _ in range(r.choice((1, 1, 2, 3, 4, 6)) if size > 1 else 1):
        if size <= 0:
            break
        kind = r.random()
        if kind < .3 and depth < 6:
            kids = forest(r, masks, r.randrange(size + 1), depth + 1, wrong)
            out.append([r.choice(CONSTRUCTED), None, kids])
            size -= 1 + len(kids)
            continue
        tag = r.choice(DECODABLE) if kind < .6 else r.choice(PRIMITIVE) if kind < .9 else r.choice(CONSTRUCTED)
        v = value_for(tag, r, wrong)
        if masks and r.random() < .15:
            m = mask_bytes(masks)
            n = r.choice((1, 2, 2, 3, 5, len(v)))
            how = r.random()
            c = r.choice(m)
            if n == 1 and tag in DECODABLE and r.random() < .9:
                n = 2
            v = bytes([c] * n) if how < .75 else bytes(r.choice(m) for _ in range(n)) if how < .85 else \
                bytes([c] * (n - 1) + [r.choice((c ^ 32, 42, 43, 0))]) if n else b""
            if how >= .75 and tag in DECODABLE and r.random() < .9:
                v = bytes([c] * n)
        out.append([tag, v, []])
        size -= 1
    return out


def encoded(fs, r=None):
    return b"".join(encode(t, encoded(k, r) if v is None else v, r) for t, v, k in fs)


def paths(fs):
    for i, (t, v, k) in enumerate(fs):
        yield (i,)
        for p in paths(k):
            yield (i,) + p


def masked_at(fs, path, char, n=None):
    """The forest with the value of the data object at path masked."""
    out = [list(x) for x in fs]
    i = path[0]
    if len(path) > 1:
        out[i][2] = masked_at(out[i][2], path[1:], char, n)
    else:
        t, v, k = out[i]
        size = n or max(2, len(encoded(k) if v is None else v))
        out[i] = [t, bytes([char] * size), []]
    return out


def spoil(r, b):
    """Bytes that were a block."""
    b = bytearray(b)
    how = r.randrange(7)
    if not b:
        return bytes([r.randrange(256)])
    i = r.randrange(len(b))
    if how == 0:
        return bytes(b[:i])
    if how == 1:
        b[i] = r.choice((0, 1, 31, 63, 127, 128, 129, 130, 131, 132, 133, 255, b[i] ^ 1, b[i] ^ 128, b[i] ^ 32, r.randrange(256)))
    elif how == 2:
        del b[i]
    elif how == 3:
        b.insert(i, r.choice((0, 1, 31, 80, 112, 128, 129, 255, r.randrange(256))))
    elif how == 4:
        b += bytes(r.choice((0, 1, 80, 112, 128, 132, 133, 159, r.randrange(256))) for _ in range(r.choice((1, 1, 2, 3))))
    elif how == 5:
        b[i] = (b[i] + r.choice((1, 255))) % 256
    else:
        b = b[i:]
    return bytes(b)


# ---------------------------------------------------------------- Ingenico
SEPARATORS = " ,;\n\t|:xT0#"


def ing_object(tag, value, r, masks=("*",)):
    """A data object; a value that's masked is given as the text that's masked."""
    t = tag.hex()
    t = "".join(r.choice((c, c.upper())) for c in t)
    if r.random() < .15:
        t = "00" * r.choice((1, 1, 2, 3)) + t
    typ = "T" if r.random() < .8 else r.choice("StABZ:0 ~\n\r\t\x01\x7f") if r.random() < .8 else chr(r.randrange(1, 128))
    if r.random() < .12 and masks:
        m = r.choice([chr(b) for b in mask_bytes(masks) if 0 < b < 128] or ["*"])
        n = r.choice((2, 3, 4, 1, len(value)))
        fmt = r.choice("ah")
        text = m * (2 * n if fmt == "h" else n)
        if r.random() < .2 and text and fmt == "a":
            text = text[:-1] + r.choice("*#xX0")
    elif value.isascii() and 0 not in value and r.random() < .6:
        fmt, text = "a", value.decode("ascii")
        n = len(value)
    else:
        fmt, n = "h", len(value)
        text = "".join(r.choice((c, c.upper())) for c in value.hex())
    width = r.choice((2, 2, 2, 4, 4, 6, 8))
    while n >= 16 ** width:
        width += 2
    return "%s%s:%s:%s%s" % (typ, t, r.choice(("%0*x", "%0*X")) % (width, n), fmt, text)


def ing_block(fs, r, masks=("*",)):
    parts = [ing_object(t, encoded(k, r) if v is None else v, r, masks) for t, v, k in fs]
    out = ""
    for p in parts:
        x = r.random()
        out += p + (r.choice(SEPARATORS) if x < .5 else " " if x < .9 else chr(r.randrange(1, 128)))
    return out if r.random() < .5 else out[:-1]


def spoil_text(r, t):
    if not t:
        return "T"
    i, how = r.randrange(len(t)), r.randrange(6)
    if how == 0:
        return t[:i] or "T"
    if how == 1:
        return t[:i] + (r.choice(":g0aAhT *é\x01zF9\n\r\t") if r.random() < .9 else chr(r.randrange(1, 128))) + t[i + 1:]
    if how == 2:
        return t[:i] + t[i + 1:] or "x"
    if how == 3:
        return t[:i] + r.choice((":", "0", "g", "a", "A", "h", "T", " ", "*", "é", ",", "\r\n", "\n", "\t", "  ", "0x", "::", "00")) + t[i:]
    if how == 4:
        return t + r.choice((" ", "T", "x", "T50", "T50:", "T50:01", "T50:01:", "T50:01:h", "T50:02:hAA", " T50:00:a", "é", "\n", "\r\n", "  ", "\nT50:00:a", "\r\nT50:00:a", ":T50:00:a"))
    j = r.randrange(len(t))
    return t[:min(i, j)] + t[max(i, j):] or "T"


# ---------------------------------------------------------------- arguments
def hex_text(b, r=None):
    """The bytes in hexadecimal, as somebody may write them."""
    h = b.hex()
    if r is None or r.random() < .6:
        return h.upper() if h else " "
    how = r.random()
    if how < .2:
        return h or "-"
    if how < .5:
        return r.choice(" :-._,\n").join(h[i:i + 2].upper() for i in range(0, len(h), 2)) or "z"
    return respelled(h, r) or "z"


JUNK = " \t\n\r,.:;-_/\\'\"()[]{}<>|!?gGhzZxXoO~\x01\x7f" + "é０Ａａ٣€𝟘\u00a0\u2028ﬀ\u0660"


def respelled(digits, r):
    """The same hexadecimal digits, written in another way."""
    out = []
    if r.random() < .3:
        out.append(r.choice(JUNK))
    for d in digits:
        out.append(r.choice((d.lower(), d.upper())))
        while r.random() < .25:
            out.append(r.choice(JUNK))
    if not out:
        out.append(r.choice(JUNK.replace("\x01", "")))
    return "".join(out)


def digits_of(text):
    return "".join(c for c in text if c in "0123456789abcdefABCDEF")


MASK_SETS = [None, None, ["*"], ["#"], ["*", "#"], ["*", "#", "A"], ["a"], ["A"], ["\x01"], ["é"], ["0"], ["F", "f"], ["€"], ["*", "é", "\x7f"],
             ["*", "*"], [" "], ["\xff", "\x01"], ["-"], ["\u012a"], ["\u0141"], ["\u0123", "*"], ["\U0001f62a", "\u212a"], ["\u0130", "k"]]


def mask_bytes(masks):
    """Bytes that the masking characters, or a wrong reading of them, could stand for."""
    return [ord(c) & 255 for c in masks] + [b for c in masks if ord(c) > 127 for b in (c.encode()[0], c.encode()[-1])] or [42]


def parts(op, arg, colour=None, masks=None, sort=None):
    return {"op": op, "arg": arg, "colour": colour, "masks": masks, "sort": sort}


def canonical(p, **other):
    """The command line in its simplest form."""
    p = dict(p, **other)
    out = ["--%s=%s" % (LONG[p["op"]], p["arg"])]
    if p["colour"] is not None:
        out.append("--colour=" + p["colour"])
    for m in p["masks"] or ():
        out.append("--masking-character=" + m)
    if p["sort"] is not None:
        out.append("--sort-parsed-tags=" + ("true" if p["sort"] else "false"))
    return out


def spelled(p, r):
    """The command line in one of its many forms."""
    longs, short = NAMES[p["op"]]
    groups = []
    name, arg = r.choice(longs), p["arg"]
    safe = not (arg.startswith("-") and len(arg) > 1)
    forms = [["--%s=%s" % (name, arg)]] + ([["--" + name, arg]] * 3 if safe else [])
    if short:
        forms += [["-%s=%s" % (short, arg)]]
        if safe:
            forms += [["-" + short, arg]] * 2
        if not arg.startswith("="):
            forms += [["-" + short + arg]]
    op = r.choice(forms)
    if p["colour"] is not None:
        n = r.choice(("--colour", "--color"))
        groups.append(r.choice(([n, p["colour"]], [n + "=" + p["colour"]])))
    if p["masks"]:
        n = r.choice(("--masking-character", "--masking-char", "--masking", "-m"))
        how = r.randrange(3)
        if how == 0 and "-" not in p["masks"]:
            groups.append([n] + p["masks"])
        elif how == 1:
            groups += [[n + "=" + m] for m in p["masks"]]
        else:
            groups += [[n, m] for m in p["masks"]]
    if p["sort"] is not None:
        yes = r.choice(("--sort-parsed-tags", "--sort"))
        no = r.choice(("--no-sort-parsed-tags", "--no-sort"))
        v = "true" if p["sort"] else "false"
        w = "false" if p["sort"] else "true"
        groups.append(r.choice(([yes, v], [yes + "=" + v], [no, w], [no + "=" + w], [yes] if p["sort"] else [no])))
    where = r.randrange(len(groups) + 1)
    return [a for g in groups[:where] + [op] + groups[where:] for a in g]


def make(p, r=None, **world):
    """An invocation with these parts."""
    c = case(*(spelled(p, r) if r else canonical(p)), **world)
    c["parts"] = p
    return c


def from_model(d):
    """An invocation that TLC has explored."""
    from concrete import concrete
    c = concrete(d["inp"])
    c["parts"] = None
    if d["verdict"] == "run":
        p = parts(None, None)
        for id, vals in d["got"]:
            vals = [arg_of(v) for v in vals]
            if id in LONG:
                p["op"], p["arg"] = id, vals[0]
            elif id == "masks":
                p["masks"] = (p["masks"] or []) + vals
            elif id == "colour":
                p["colour"] = vals[0]
            else:
                p["sort"] = (vals[0] if vals else "true") == ("true" if id == "sort" else "false")
        if p["op"]:
            c["parts"] = p
    return c


# ---------------------------------------------------------------- related invocations
def like(c, argv):
    return dict(c, argv=argv, mates=[], parts=None)


def possible(c):
    """Can it be run at all?"""
    for argv in [c["argv"]] + [m["case"]["argv"] for m in c["mates"]]:
        for a in argv:
            a = a if isinstance(a, bytes) else a.encode("utf-8", "surrogateescape")
            if len(a) > 131071 or 0 in a:
                return False
    return True


def with_mates(prop, c, r):
    """The invocation with the ones that its property compares it to, or None if it has none."""
    p = c.get("parts")
    if prop == "C05":
        if c.get("before"):
            c["mates"] = [{"case": like(c, canonical(c["before"]))}]
    elif prop == "C08":
        if not p or p["op"] != "auto":
            return None
        c["mates"] = [{"case": like(c, canonical(p, op="ingenico"))}, {"case": like(c, canonical(p, op="ber"))}]
    elif prop == "C09":
        if not p or p["op"] not in TLV:
            return None
        c["mates"] = [{"case": like(c, canonical(p, sort=False))}]
    elif prop == "C12":
        if not p or p["op"] not in TLV:
            return None
        c["decode"] = True
    elif prop == "C21":
        if not p or p["op"] not in HEX_OPS:
            return None
        d = digits_of(p["arg"])
        c["mates"] = [{"case": like(c, canonical(p, arg=a))}
                      for a in (d.upper() or "-", respelled(d, r), respelled(d + (r.choice("0aF") if len(d) % 2 == 0 else ""), r))]
    elif prop == "C22":
        if not p:
            return None
        c["mates"] = [{"case": like(c, canonical(p, colour="never"))}]
    elif prop == "C24":
        if p:
            c["mates"] = [{"case": like(c, canonical(p))}]
    elif prop == "C26":
        c = dict(c, ambient=r.randrange(1, 1 << 30), style=r.choice((0, r.randrange(1, 1 << 30))))
        c["mates"] = [{"case": dict(like(c, c["argv"]), ambient=0)}]
    return c


# ---------------------------------------------------------------- the same elsewhere
def place(r, n, ingenico):
    """Other surroundings for a block of n bytes or characters: what happens to it, step by step."""
    how = r.random()
    if how < .25:
        return [("again", min(r.choice((2, 3, 10, 40, 100, 300)), 1 + 1600 // n), r.choice(" ,\n"))]
    if how < .45 or ingenico:
        return [("behind", r.choice((1, 100, 127, 128, 250, 256, 300, 1000, 2000)), r.choice(" ,\n"))]
    levels = r.choice((1, 2, 4, 6, 8, 9, 10, 12, 14, 17, 20, 32, 33, 40))
    while levels * (n + 4 * levels) > 10000:
        levels //= 2
    return [("within", r.choice(CONSTRUCTED), some_bytes(r, 2) if r.random() < .2 else None, r.choice((True, False))) for _ in range(levels)]


def placed(text, steps, ingenico):
    if ingenico:
        for how, *s in steps:
            if how == "again":
                text = s[1].join([text] * s[0])
            else:
                text = "T50:%08x:a%s%s" % (s[0], "z" * s[0], s[1]) + text
        return text
    b = bytes.fromhex(digits_of(text))
    for how, *s in steps:
        if how == "again":
            b = b * s[0]
        elif how == "behind":
            b = encode(b"\x50", b"z" * s[0]) + b
        else:
            tag, other, first = s
            other = encode(b"\xC1", other) if other else b""
            b = encode(tag, other + b if first else b + other)
    return b.hex().upper()


def elsewhere(c, r):
    """The same block further down, further on, or again and again."""
    p = c.get("parts")
    if not p or p["op"] not in TLV or not p["arg"] or len(p["arg"]) > 20000:
        return c
    ingenico = p["op"] == "ingenico" or (p["op"] == "auto" and ":" in p["arg"])
    blocks = [x["arg"] for x in (p, c.get("before")) if x]
    if not ingenico and any(not digits_of(a) or len(digits_of(a)) % 2 for a in blocks):
        return c
    steps = place(r, max(map(len, blocks)), ingenico)
    moved = dict(p, arg=placed(p["arg"], steps, ingenico))
    c = dict(c, argv=canonical(moved), parts=moved)
    if c.get("before"):
        c["before"] = dict(c["before"], arg=placed(c["before"]["arg"], steps, ingenico))
    return c


# ---------------------------------------------------------------- generators
def options(r, masks=None, sorted_=None):
    return dict(masks=masks, sort=sorted_ if sorted_ is not None else r.choice((None, True, False)))


def ber_random(r):
    masks = r.choice(MASK_SETS)
    fs = forest(r, masks or ["*"], r.choice((1, 2, 4, 8, 16, 30)))
    return make(parts("ber", hex_text(encoded(fs, r), r), **options(r, masks)), r)


def ber_spoilt(r):
    masks = r.choice(MASK_SETS)
    b = encoded(forest(r, masks or ["*"], r.choice((1, 2, 3, 5, 8)), 0, 0), r)
    for _ in range(r.choice((1, 1, 1, 2))):
        b = spoil(r, b)
    return make(parts("ber", hex_text(b), **options(r, masks)))


def ber_noise(r):
    b = bytes(r.choice((0, 1, 2, 3, 80, 112, 159, 31, 128, 129, 130, 132, 133, 42, r.randrange(256))) for _ in range(r.randrange(14)))
    return make(parts("ber", hex_text(b), **options(r)))


def ing_random(r):
    masks = r.choice(MASK_SETS)
    fs = forest(r, masks or ["*"], r.choice((1, 2, 4, 8, 12)))
    return make(parts("ingenico", ing_block(fs, r, masks or ["*"]) or "T50:00:a", **options(r, masks)), r)


def ing_spoilt(r):
    fs = forest(r, ["*"], r.choice((1, 2, 3)), 0, 0)
    t = ing_block(fs, r) or "T50:00:a"
    for _ in range(r.choice((1, 1, 2))):
        t = spoil_text(r, t)
    return make(parts("ingenico", t, **options(r)))


def ing_tiny(r):
    """Very short text, and data objects with empty or odd fields."""
    if r.random() < .3:
        t = "".join(r.choice("T5:0:a:h8") for _ in range(r.randrange(1, 9)))
    else:
        t = "".join("%s%s:%s:%s%s%s" % (r.choice("TTTS:5"), r.choice(("5", "50", "050", "00", "", "70", "9F2", "4F")), r.choice(("", "0", "00", "1", "01", "001", "8", "0000")),
                                        r.choice("aahhx"), r.choice(("", "", "", "0", "00", "**", "5")), r.choice(("", " ", ":", "T")))
                    for _ in range(r.choice((1, 1, 1, 2))))
    if r.random() < .3:
        t = t[:r.randrange(1, len(t) + 1)]
    return make(parts(r.choice(("ingenico", "auto")), t, **options(r)))


def auto_tiny(r):
    c = ing_tiny(r)
    return make(dict(c["parts"], op="auto"))


def auto_random(r):
    how, masks = r.random(), r.choice(MASK_SETS)
    fs = forest(r, masks or ["*"], r.choice((1, 2, 4, 8)), 0, .05)
    if how < .4:
        a = ing_block(fs, r, masks or ["*"]) or "T50:00:a"
    elif how < .75:
        a = hex_text(encoded(fs, r), r)
    elif how < .9:
        a = spoil_text(r, ing_block(fs[:2], r) or "T50:00:a")
    else:
        a = hex_text(spoil(r, encoded(fs, r)))
    return make(parts("auto", a, **options(r, masks)), r if r.random() < .3 else None)


def masked_each(r):
    """A block that can be listed, one of whose values has been masked."""
    masks = r.choice(MASK_SETS)
    chars = [c for c in masks or ["*"] if ord(c) < 256]
    if not chars:
        masks, chars = None, ["*"]
    fs = before = forest(r, None, r.choice((2, 4, 8)), 0, 0)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        c = r.choice(chars)
        fs = masked_at(fs, r.choice(list(paths(fs))), ord(c), r.choice((None, None, None, 2, 3, 300)))
    def text(x):
        return x.hex() if set(x) - set(map(ord, chars)) or len(x) < 2 else chr(x[0]) * (2 * len(x))
    if r.random() < .6:
        args = [("ber", hex_text(encoded(x))) for x in (fs, before)]
    else:
        args = [("ingenico", " ".join("T%s:%04x:h%s" % (t.hex(), len(b), text(b)) for t, b in ((t, encoded(k) if v is None else v) for t, v, k in x)))
                for x in (fs, before)]
        if not args[0][1].isascii():
            args = [("ingenico", "T50:00:a")]
    o = options(r, masks)
    c = make(parts(*args[0], **o))
    if args[1:]:
        c["before"] = parts(*args[1], **o)
    return c


def siblings(r):
    """Many data objects at one level, several with the same tag."""
    pool = r.sample(PRIMITIVE + CONSTRUCTED, r.choice((2, 3, 6))) + r.sample([b"\x50", b"\x4F", b"\x5F\x24", b"\x5F\x20", b"\x5F\x2D", b"\xC1"], 2)
    def level(depth):
        out = []
        for i in range(r.choice((3, 8, 21, 22, 33, 60)) if depth == 0 else r.choice((2, 5, 25))):
            t = r.choice(pool)
            if t[0] & 0x20 and depth < 2 and r.random() < .4:
                out.append([t, None, level(depth + 1)])
            else:
                out.append([t, r.choice((b"**", b"***", b"*")) if r.random() < .1 else bytes([i, depth]), []])
        return out
    fs = level(0)
    if r.random() < .75:
        return make(parts("ber", hex_text(encoded(fs)), **options(r)))
    return make(parts("ingenico", " ".join("T%s:%04x:h%s" % (t.hex(), len(x), x.hex()) for t, x in
                                           ((t, encoded(k) if v is None else v) for t, v, k in fs)), **options(r)))


def single_value(r, ops=("tvr", "iad", "cvr", "tsi", "cvmresults", "cvmlist", "identify", "servicecode")):
    op = r.choice(ops)
    if op == "servicecode":
        return make(parts(op, r.choice((str(r.randrange(1100)), "%03d" % r.randrange(1000), "%05d" % r.randrange(1000), "+%d" % r.randrange(999),
                                        " %d" % r.randrange(999), "%d " % r.randrange(999), "1a", "0x10", "2 01", "65536", "99999999999", "-0",
                                        "１２", "+", "++1", "201.0", "٣", "\t201\n"))), r)
    tag = {"tvr": b"\x95", "tsi": b"\x9B", "cvmlist": b"\x8E", "cvmresults": b"\x9F\x34", "iad": b"\x9F\x10"}.get(op)
    if op == "identify":
        b = r.choice((r.choice(TAGS + CONSTRUCTED + PRIMITIVE), bytes(r.randrange(256) for _ in range(r.choice((1, 1, 2, 2, 3, 5))))))
        if r.random() < .3:
            b = spoil(r, b)
    elif op == "cvr":
        b = some_bytes(r, 5)
    else:
        b = good_value(tag, r)
    if r.random() < .1:
        b = r.choice((b[:-1], b + b"\0", b + some_bytes(r, r.randrange(9)), b[:r.randrange(len(b) + 1)]))
    return make(parts(op, hex_text(b, r)), r)


def value_in_block(r, tags=DECODABLE, wrong=.15, depth=3):
    """One decodable value among others, at some level of either format."""
    tag = r.choice(tags)
    v = value_for(tag, r, wrong)
    if r.random() < .05:
        v = some_bytes(r, r.randrange(12))
    fs = [[tag, v, []]]
    if r.random() < .4:
        fs += [[r.choice(tags), None, []]]
        fs[1][1] = good_value(fs[1][0], r)
    for _ in range(r.randrange(depth + 1)):
        if r.random() < .5:
            fs = fs + [[r.choice(PRIMITIVE), some_bytes(r, r.randrange(4)), []]]
        if r.random() < .5:
            fs = [[r.choice(PRIMITIVE), some_bytes(r, r.randrange(4)), []]] + fs
        fs = [[r.choice(CONSTRUCTED), None, fs]]
    masks = r.choice(MASK_SETS) if r.random() < .2 else None
    op = r.choice(("ber", "ber", "ingenico", "auto"))
    if op == "ber" or (op == "auto" and r.random() < .5):
        return make(parts(op, hex_text(encoded(fs, r)), **options(r, masks)))
    return make(parts(op, ing_block(fs, r, None), **options(r, masks)))


def dumped(r):
    b = some_bytes(r, r.choice((0, 1, 2, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 64, 100, 128)))
    fs = [[r.choice(PRIMITIVE), b, []]]
    for _ in range(r.choice((0, 0, 1, 1, 2, 2, 5, 12, 20)) if r.random() < .97 else r.choice((33, 64, 65, 128, 129))):
        fs = [[r.choice(CONSTRUCTED), None, fs]] if r.random() < .6 else [[r.choice(CONSTRUCTED), None, fs], [b"\x81", some_bytes(r, r.randrange(20)), []]]
    op = r.choice(("ber", "auto"))
    return make(parts(op, hex_text(encoded(fs, r)), **options(r)))


COLOURS = (None, None, "always", "ansi", "never", "auto", "always")


def coloured(r):
    c = r.choice((single_value, value_in_block, ber_random, ing_random, auto_random, ber_spoilt, siblings))(r)
    p = dict(c["parts"], colour=r.choice(COLOURS))
    world = dict(tty=r.random() < .5, nocolor=r.random() < .2, term=r.choice(("xterm", "xterm", "dumb", "", "linux", "xterm-256color", "vt100", "dumber")))
    if r.random() < .2:
        world["env"] = {"colour": r.choice(("always", "never", "ansi", "auto"))}
    return make(p, r if r.random() < .3 else None, **world)


PROFILES = ("default", "global", "work", "Work", "DEFAULT", "GLOBAL", "other", "Global", "home", " work ", "a.b", "zwei Wörter", "-", "0")


def random_layer(r, bad=.04):
    l = {}
    if r.random() < .45:
        l["colour"] = "?" if r.random() < bad else r.choice(("auto", "always", "ansi", "never"))
    if r.random() < .45:
        l["masks"] = "?" if r.random() < bad else r.choice(("*", "#", "*#", "#+", "a", "é", "", "+", "A*"))
    if r.random() < .45:
        l["sort"] = "?" if r.random() < bad else r.random() < .5
    return l


def random_file(r, bad=.04):
    if r.random() < bad:
        return {"profiles": [], "broken": r.choice((1, 2, 3))}
    names, seen = [], set()
    for n in r.sample(PROFILES, r.choice((0, 1, 2, 3, 4))):
        if n.lower() not in seen:
            seen.add(n.lower())
            names.append(n)
    return {"profiles": [(n, random_layer(r, bad)) for n in names], "broken": 0}


PROBES = ["50022A2A4F02232370095F24022B2B50032A2A2A9F02042B2B2B2B5A0241415A026161", "9F02022B2B50012A4F0223235A002A0141C102E9E9",
          "57022A2A9505FFFFFFFFFF4F022323"]
ING_PROBES = ["T50:02:a** T4F:02:a## T9F02:02:a++ T5A:02:aaa T57:02:aAA", "T70:04:h5F240123 T50:03:a### T42:01:h****"]


def layered(r):
    p = r.choice([parts("ber", x) for x in PROBES] + [parts("ingenico", x) for x in ING_PROBES] + [parts("auto", ING_PROBES[0]), parts("tvr", "8000000001")])
    if p["op"] in TLV:
        p = dict(p, masks=r.choice((None, None, ["*"], ["#", "+"], ["a"])), sort=r.choice((None, None, None, True, False)))
    p["colour"] = r.choice((None, None, None, "always", "never", "auto"))
    world = {"env": random_layer(r) if r.random() < .6 else None,
             "profile": r.choice((None, None, "work", "WORK", "default", "global", "other", "nothing", "home", "Work", "", " work ", "work ", "a.b", "a", "zwei Wörter", "-", "0", "defaults")),
             "files": [random_file(r) if r.random() < .5 else None for _ in range(3)] if r.random() < .8 else []}
    if r.random() < .2:
        world["named"] = (r.choice(("abs", "rel", "up", "missing", "empty", "directory")), random_file(r))
    if r.random() < .2:
        world.update(tty=True, term=r.choice(("xterm", "dumb", "")), nocolor=r.random() < .3)
    return make(p, r, style=r.randrange(1, 1 << 30), **world)


TOKENS = ["--ber", "--ber-tlv", "-b", "--tvr", "-t", "--auto", "-a", "-i", "--ingenico", "--identify", "--id", "--tsi", "--9B", "--9f34", "-r", "--cvm-list",
          "--iad", "--service-code", "5A0101", "0000000000", "8000", "T50:01:aQ", "201", "true", "false", "#", "*", "always", "never", "sometimes",
          "--sort", "--sort=false", "--no-sort", "--no-sort=true", "--no-sort-parsed-tags", "--sort-parsed-tags", "-m", "-m#", "-m=*", "--masking", "--masking-char=x",
          "--colour", "--color=always", "--colour=ansi", "--help", "-h", "-?", "-V", "--version", "--", "-", "", "=", "-x", "--unknown", "--be", "--BER", "-B",
          "--ber=500101", "--tvr=0000000000", "-b500101", "-t=8000000000", "--sort=maybe", "--colour=", "-m=", "--ber=", "é", "-é", "--help=1", "-hV", "-Vb",
          b"\xff", b"--ber=\xff", b"-b\xfe", b"\xc3", b"--m\xff", b"-\xff"]


def command_line(r):
    return case(*[r.choice(TOKENS) for _ in range(r.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 6)))])


def command_around(r):
    """A command line that works, with something added to it."""
    p = r.choice((ber_random, single_value, ing_random))(r)["parts"]
    p = dict(p, arg=p["arg"][:60] or "0", masks=r.choice((None, ["*", "#"])) if p["op"] in TLV else None, colour=r.choice((None, None, "always")))
    argv = spelled(p, r)
    for _ in range(r.choice((0, 1, 1, 2))):
        argv.insert(r.randrange(len(argv) + 1), r.choice(TOKENS))
    return case(*argv)


def names(r):
    p = r.choice((single_value, value_in_block, ber_random, ing_random, auto_random))(r)["parts"]
    if r.random() < .4:
        op = r.choice(list(LONG))
        p = dict(p, op=op, masks=p["masks"] if op in TLV else None, sort=p["sort"] if op in TLV else None)
    if r.random() < .3:
        p = dict(p, colour=r.choice(("always", "never", "auto", "ansi")))
    return make(p, r)


def spellings(r):
    p = r.choice((single_value, ber_random, ber_spoilt, ber_noise))(r)["parts"]
    p = dict(p, arg=respelled(digits_of(p["arg"]), r))
    return make(p)


def noise(r):
    """Anything at all."""
    how = r.random()
    if how < .3:
        return r.choice((command_line, command_around))(r)
    if how < .5:
        return layered(r)
    if how < .6:
        op = r.choice(list(LONG))
        return make(parts(op, "".join(chr(r.choice((r.randrange(1, 128), r.randrange(1, 128), r.randrange(0xA0, 0x3000), 0x1F600))) for _ in range(r.randrange(1, 40)))), r)
    if how < .65:
        return case("--" + r.choice(list(LONG.values())), bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 30))))
    return r.choice((ber_spoilt, ing_spoilt, auto_random, single_value, coloured, ber_noise))(r)


def conventional(r):
    """Arguments that stand for something else in other programs."""
    op = r.choice(sorted(NAMES))
    arg = r.choice(("-", "-", "--", "@pemv.toml.d", "@-", "/dev/stdin", "/dev/null", "/dev/fd/0", "/proc/self/fd/0", "pemv.toml.d", "./pemv.toml.d", "~", "~/pemv.toml", "$HOME", "${COLUMNS}",
                    "file:pemv.toml.d", "file:///dev/stdin", "http://localhost:9/", "`id`", "$(id)", "*", "%s%n", "\\x50", "base64:UAFB", "<pemv.toml.d", "|cat", "1d", "clipboard", "5A0A", "500141", "?", "help"))
    return make(parts(op, arg), r if r.random() < .5 else None)


GENERATORS = {f.__name__: f for f in (ber_random, ber_spoilt, ber_noise, ing_random, ing_spoilt, ing_tiny, auto_tiny, auto_random, masked_each, siblings, single_value,
                                      value_in_block, dumped, coloured, layered, command_line, command_around, names, spellings, noise, conventional)}


# ---------------------------------------------------------------- large invocations
def filled(n, k=0):
    return bytes((i * 7 + k) % 256 for i in range(n))


def long_values(r, deep):
    """Values around the boundaries of lengths, up to what an argument can hold."""
    sizes = [127, 128, 129, 255, 256, 257, 1000, 4095, 4096] + [r.randrange(300, 4000) for _ in range(3)]
    huge = [32768, 65520] if not deep else [32767, 32768, 65510, 65520, 40000, 50001]
    for n in sizes + huge:
        for form in range(5):
            if (n < 128 if form == 0 else n < 256 ** form) and (n < 5000 or form in (2, 4)) and n + 1 + 1 + form <= 65535:
                yield make(parts("ber", (b"\x50" + encode_length(n, form) + filled(n, r.randrange(256))).hex(), sort=False))
    for n in sizes:
        b = encode(b"\x9F\x02", filled(n)) + encode(b"\x50", b"\1\2")
        yield make(parts("ber", encode(b"\x70", b).hex()))
        yield make(parts("ber", encode(b"\xE1", encode(b"\x70", b) + b"\x81").hex()))
        yield make(parts("ber", b.hex()[:-2]))
        yield make(parts("ber", (encode(b"\x50", b"*" * n) + encode(b"\x70", b"*" * n) + encode(b"\x51", b"*" * (n - 1) + b"+")).hex()))
        yield make(parts("ingenico", "T50:%04X:a%s T70:%04X:h%s" % (n, "x" * n, len(b), b.hex())))
        yield make(parts("ingenico", "S50:%08X:h%s,T51:02:aab" % (n, filled(n).hex())))
        yield make(parts("ingenico", "T50:%04X:a%s T70:%04X:h%s" % (n, "*" * n, n, "*" * (2 * n))))
    for n in [60000, 65536, 70000] if deep else [65536]:
        yield make(parts("ingenico", "T50:%08X:a%s" % (n, ("abcdefgh" * (n // 8 + 1))[:n])))
    yield make(parts("ber", "FF" * 20 + "7F0101"))
    yield make(parts("ber", ("1F" + "81" * 300 + "0100" + "500101")))
    yield make(parts("ber", "5084FFFFFFFF"))
    yield make(parts("ber", "508480000000" + "00" * 9))
    yield make(parts("ber", "50840000000101"))
    yield make(parts("ber", "508401000000"))
    yield make(parts("ber", "5083010000" + "00" * 300))
    yield make(parts("ber", "50820100" + "00" * 255))
    yield make(parts("ingenico", "T50:FFFFFFFF:aabc"))
    yield make(parts("ingenico", "T50:0100000000:aabc"))
    yield make(parts("ingenico", "T50:80000000:h00"))
    yield make(parts("ingenico", "T50:7FFFFFFF:h00"))
    yield make(parts("ingenico", "T50:80000001:h00"))


def crowded(r, deep):
    """Many data objects: on one level, below one data object, altogether."""
    def objects(n, small):
        out = []
        for k in range(n):
            t = r.choice(PRIMITIVE[:6] + [b"\xDF\x01", b"\x5F\x55"])
            out.append((t, b"" if small else bytes([k // 256 % 256, k % 256]) if r.random() < .8 else b"*" * r.choice((2, 3))))
        return out + [(b"\x41", b"\x99")]
    for n in [17, 33, 65, 100, 129, 255, 256, 257, 300, 513, 1025] + ([2049, 4200] if deep else []):
        for sort in (None, False):
            fs = objects(n, n > 2000)
            b = b"".join(encode(t, v) for t, v in fs)
            text = r.choice((" ", ",", "\n")).join("T%s:%02X:h%s" % (t.hex(), len(v), v.hex()) for t, v in fs)
            few = r.randrange(3)
            yield make(parts("ber", b.hex(), sort=sort))
            yield make(parts("ingenico", text, sort=sort))
            if few == 0 or n < 400:
                yield make(parts("ber", (encode(b"\x51", b"\1") + encode(b"\x70", b) + encode(b"\x50", b"\2")).hex(), sort=sort))
                yield make(parts("ingenico", "T70:%04X:h%s T50:01:h01" % (len(b), b.hex()), sort=sort))
            if few == 1 or n < 200:
                yield make(parts("auto", r.choice((b.hex(), text)), sort=sort))
                yield make(parts("ber", encode(b"\xE1", encode(b"\x70", b) + encode(b"\x70", b"\x50\0")).hex(), sort=sort))
            if few == 2 or n < 100:
                yield make(parts("ber", (b + r.choice((b"\x50", b"\x50\2\1", b"\x5F"))).hex(), sort=sort))
                yield make(parts("ingenico", text + r.choice((" T50:02:h01", "T", " T50:00:ax", " T50:00:h5")), sort=sort))
    for size in (200, 500) if deep else (500,):
        b = b""
        while len(b) < 65500 - size - 20:
            b += encode(r.choice(PRIMITIVE[:6]), filled(r.randrange(size // 2, size), len(b)))
        yield make(parts("ber", (b + encode(b"\x41", b"\x99")).hex(), sort=False))
        yield make(parts("ber", (b + b"\x41\2\x99").hex()))
    # the same again and again
    for x in ("500141", "5000", "70025000", "5A022A2A"):
        for n in (2, 3, 4, 40):
            yield make(parts("ber", x * n))
            yield make(parts("auto", "7F21%02X" % (n * len(x) // 2) + x * n) if n < 40 else parts("ber", x * n, sort=False))
    for n in (2, 3, 40):
        yield make(parts("ingenico", "T50:02:aab " * n))
        yield make(parts("ingenico", "T70:04:h50024142," * n))


def swarms(r, deep):
    """As many data objects, rules and characters as an argument can hold: only for whether it ends well, and soon."""
    todo = [parts("ber", "5F2400" * 10000 + "5000" * 17000), parts("ber", "50012A" * 21000), parts("ingenico", "T5F24:00:a " * 5500 + "T50:00:a," * 7000),
            parts("auto", "5F2400" * 10000 + "5000" * 17000), parts("ber", "7F21825001" + "5F2400" * 3413 + "5000" * 5121)]
    todo += [parts("cvmlist", "00" * 8 + "1F03" * 30000), parts("ber", "8E82EA60" + "00" * 8 + "0203" * 29996), parts("ber", "7000" * 10 + "95058000000000" * 8000)]
    for p in todo:
        c = make(p)
        c["note"] = "swarm"
        yield c


def far_apart(r, deep):
    """Digits with much in between."""
    for op, d in (("ber", "500141"), ("tvr", "8000000001"), ("identify", "9F02"), ("iad", "0FA501020304050607080000000000000F010203040506070809101112131415"), ("tsi", "E800")):
        for n in (255, 256, 1000, 4095, 4096, 4097, 10000, 70000, 120000) if deep or op in ("ber", "tvr") else (300, 5000, 70000):
            gap = r.choice((" ", "-", "\n", "xyz", "g", "é"))
            gap = gap * (n // len(gap.encode()))
            k = r.randrange(len(d) + 1)
            yield make(parts(op, d[:k] + gap + d[k:]))
            yield make(parts(op, gap + d))


def many_options(r, deep):
    """Many masking characters, repeated options, long names."""
    for n in (7, 8, 9, 10, 16, 17, 33, 64, 100, 257):
        masks = [chr(0x100 + k) if k % 2 else chr(33 + k % 90) for k in range(n - 1)] + ["z"]
        if len(set(masks)) < len(masks):
            masks = [chr(0x400 + k) for k in range(n - 1)] + ["z"]
        for world in ({}, {"env": {"masks": "".join(masks)}}, {"files": [{"profiles": [("default", {"masks": "".join(masks)})], "broken": 0}]}):
            yield make(parts("ingenico", "T50:03:azzz T51:03:az*z T52:02:a**", masks=None if world else masks), **world)
            yield make(parts("ber", "50027A7A51032A2A2A5203FFFFFF", masks=None if world else masks), **world)
        profiles = [("p%d" % k, {"sort": bool(k % 2), "masks": chr(97 + k % 26)}) for k in range(n)]
        r.shuffle(profiles)
        for which in ("p0", "P%d" % (n - 1), "p%d" % n):
            yield make(parts("ber", "5F24022B2B500261615A027A7A51026262"), files=[None, {"profiles": profiles, "broken": 0}], profile=which)
        name = "n" * n * 20
        yield make(parts("ber", "5F24022B2B50026161"), files=[{"profiles": [(name, {"sort": False})], "broken": 0}], profile=name)


def nested(levels, inner=b"\x50\x01\x2A", tag=b"\x70"):
    b = inner
    for _ in range(levels):
        b = encode(tag, b)
    return b


def deep_nesting(r, deep):
    levels = [1, 2, 9, 10, 50, 127, 199, 200, 201, 230, 249, 250, 251, 252, 255, 256, 257, 258, 300, 513] + ([600, 1000, 1500] if deep else [])
    for n in levels:
        for op in ("ber", "ingenico"):
            for inner in (b"\x50\x01\x2A", b"\x50\x02\x01", b"\x95\x05\x80\0\0\0\0") if n in (10, 200, 249, 250, 251) else (b"\x50\x01\x2A",):
                b = nested(n, inner, r.choice((b"\x70", b"\xE1", b"\x7F\x21")))
                yield make(parts(op, b.hex() if op == "ber" else "T%s:%08X:h%s" % ("70", len(b), b.hex()), sort=False))
    # opened as deep as it goes: only for whether it ends well
    for n in [1200, 5000, 16000] + ([30000] if deep else []):
        c = make(parts("ber", nested(n).hex()[:131000]))
        c["note"] = "bottomless"
        yield c


def all_tags(r, deep):
    """Every tag of one and two bytes in a listing."""
    yes = [bytes([a]) for a in range(256) if a % 32 != 31]
    for a in range(256):
        if a % 32 == 31:
            yes += [bytes([a, b]) for b in (range(128) if deep or a in (0x5F, 0x9F, 0xBF) else range(0, 128, 9))]
    yes += [bytes([0x9F, 0x80 + r.randrange(128), r.randrange(128)]) for _ in range(60)] + [bytes([0x5F, 0x80 + a, 0x20 + b]) for a in range(4) for b in range(16)]
    yes = [t for t in yes if t not in DECODABLE]
    for i in range(0, len(yes), 40):
        b = b"".join(t + b"\0" for t in yes[i:i + 40])
        yield make(parts("ber", b.hex()))
        yield make(parts("ingenico", " ".join("T%s:00:a" % t.hex() for t in yes[i:i + 40])))


def crowd(r, tag, values, per=64, **options):
    """Listings of many data objects with one tag."""
    values = list(values)
    for i in range(0, len(values), per):
        b = b"".join(encode(tag, v) for v in values[i:i + per])
        for _ in range(r.choice((0, 0, 1, 2))):
            b = encode(r.choice(CONSTRUCTED), b)
        if r.random() < .8:
            yield make(parts("ber", b.hex().upper(), **options))
        else:
            yield make(parts("ingenico", " ".join("T%s:%02X:h%s" % (tag.hex(), len(v), v.hex()) for v in values[i:i + per]), **options))


BIT_TAGS = {b"\x95": 5, b"\x9B": 2, b"\x9F\x33": 3, b"\x9F\x40": 5, b"\x9F\x0D": 5, b"\x9F\x0E": 5, b"\x9F\x0F": 5}


def all_codes(r, deep):
    """Every code of two ASCII characters, and more of other kinds."""
    yield from crowd(r, b"\x8A", [bytes([a, b]) for a in range(128) for b in range(128)], 128)
    yield from crowd(r, b"\x8A", [chr(a).encode() for a in range(0xA0, 0x800, 1 if deep else 5)], 128)
    yield from crowd(r, b"\x9C", [bytes([a]) for a in range(256)], 128)
    for tag, known in ((b"\x9F\x35", TERMINALS), (b"\x9F\x39", POS)):
        yield from crowd(r, tag, [bytes.fromhex(t) for t in known], 64)
    for _ in range(300 if deep else 60):
        yield make(parts("ber", encode(b"\x8A", some_bytes(r, 2)).hex()))


def all_services(r, deep):
    codes = [bytes([n // 100, n // 10 % 10 * 16 + n % 10]) for n in range(1000)]
    yield from crowd(r, b"\x5F\x30", codes, 50)
    for _ in range(3000 if deep else 500):
        yield make(parts("ber", encode(b"\x5F\x30", bytes([r.choice((r.randrange(256), r.randrange(17))), r.randrange(256)])).hex()))


def all_rules(r, deep):
    """Results and lists with every method and every condition, together."""
    pairs = [(m, c) for m in range(256) for c in range(256)]
    if not deep:
        few = {int(x, 16) for x in METHODS} | {0x20, 0x3F}
        pairs = [(m, c) for m, c in pairs if (m & 63) in few and c < 12] + r.sample(pairs, 1500)
    yield from crowd(r, b"\x9F\x34", [bytes([m, c, r.randrange(3)]) for m, c in pairs], 48)
    for i in range(0, len(pairs), 60):
        rules = b"".join(bytes(p) for p in pairs[i:i + 60])
        yield make(parts("cvmlist", (some_bytes(r, 8) + rules).hex()))
    for n in (125, 255, 256, 257, 1000) if deep else (125, 257):
        yield make(parts("cvmlist", (b"\0" * 8 + b"".join(rule(r) for _ in range(n))).hex()))
    for k in range(33):
        for n in {2 ** k - 1, 2 ** k, 10 ** (k % 10), 10 ** (k % 10) - 1}:
            if n < 2 ** 32:
                m = r.choice((0, 0, r.randrange(2 ** 32), r.randrange(1000)))
                x, y = (n, m) if r.random() < .5 else (m, n)
                yield make(parts("cvmlist", (x.to_bytes(4, "big") + y.to_bytes(4, "big") + r.choice((b"", b"\x1F\0", b"\x1F\x06"))).hex()))


def all_bytes(r, deep):
    """Every byte at every place of a bit field, among others."""
    for tag, n in BIT_TAGS.items():
        for k in range(n):
            for _ in range(4 if deep else 1):
                values = []
                for v in range(256):
                    b = bytearray(some_bytes(r, n) if r.random() < .7 else bytes([255] * n))
                    b[k] = v
                    values.append(bytes(b))
                yield from crowd(r, tag, values, 32)
    for op, n in (("tvr", 5), ("tsi", 2), ("cvr", 5)):
        for v in range(65536 if op == "tsi" and deep else 0):
            yield make(parts("tsi", "%04X" % v))
        for k in range(n):
            for v in range(256):
                b = bytearray(some_bytes(r, n) if r.random() < .7 else bytes([255] * n))
                b[k] = v
                yield make(parts(op, b.hex()))


def coloured_bits(r, deep):
    """Every bit of every bit field, in colours."""
    def single(n):
        yield bytes(n)
        yield bytes([255] * n)
        for k in range(8 * n):
            yield (1 << k).to_bytes(n, "big")
            yield ((1 << 8 * n) - 1 - (1 << k)).to_bytes(n, "big")
    for tag, n in BIT_TAGS.items():
        yield from crowd(r, tag, single(n), 16, colour="always", sort=False)
    for op, n in (("tvr", 5), ("tsi", 2), ("cvr", 5)):
        for b in single(n):
            yield make(parts(op, b.hex(), colour=r.choice(("always", "ansi"))))
    for m in range(256):
        yield make(parts("cvmresults", bytes([m, r.randrange(12), r.randrange(3)]).hex(), colour="always"))
    for b in single(5):
        x = bytes([15, r.choice((0xA5, 0xA6)), r.randrange(256)]) + b + some_bytes(r, 8) + b"\x0F" + some_bytes(r, 15)
        yield make(parts("iad", x.hex(), colour="always"))
        yield make(parts("ber", encode(b"\x9F\x10", x).hex(), colour="always"))
    for tag in DECODABLE + r.sample(PRIMITIVE + CONSTRUCTED, 20):
        for _ in range(3):
            yield make(dict(value_in_block(r, [tag], 0)["parts"], colour=r.choice(("always", "ansi"))))
    for op, arg in (("identify", "9F02"), ("identify", "DF01"), ("identify", "70"), ("servicecode", "201"), ("servicecode", "999"), ("cvmlist", "0000000000000000420341031F06"),
                    ("cvmlist", "00000001000000004203"), ("ber", "70045002 2A2A"), ("auto", "70045002 2A2A"), ("auto", "T70:04:h50022A2A"), ("ingenico", "T70:02:h**** T50:00:a")):
        for colour in ("always", "ansi", "never", "auto"):
            for tty in (False, True):
                yield make(parts(op, arg, colour=colour), tty=tty, term="xterm" if tty else "")


def wide_sizes(r, deep):
    """Sizes that are right but for a multiple of 256."""
    right = {"5F30": 2, "8A": 2, "8E": 8, "95": 5, "9B": 2, "9C": 1, "9F0D": 5, "9F0E": 5, "9F0F": 5, "9F10": 32, "9F33": 3, "9F34": 3, "9F35": 1, "9F39": 1, "9F40": 5}
    for t, n in right.items():
        for m in (n + 256, n + 512, n + 4096, 255, 256, 2 * n, n + 128):
            v = bytes((n * [0x22, 0x11, 2, 1] + [0] * m)[:m]) if r.random() < .5 else bytes(r.randrange(3) for _ in range(m))
            yield make(parts("ber", encode(bytes.fromhex(t), v).hex()))
            op = VALUE_OPS.get(tuple(bytes.fromhex(t)))
            if op:
                yield make(parts(op, v.hex()))
    for op, n in (("tvr", 5), ("tsi", 2), ("cvr", 5), ("iad", 32), ("cvmresults", 3), ("cvmlist", 7), ("cvmlist", 9)):
        for m in (n + 256, n + 32768, n + 65280):
            if 2 * m < 131000:
                yield make(parts(op, "02" * m))


def odd_tags(r, deep):
    """Every tag of two bytes, whatever it is, and tags made from those that have a name."""
    yes = [bytes([a, b]) for a in range(1, 256) for b in range(256)]
    ends = range(256) if deep else (0, 1, 2, 0x20, 0x7F, 0x80, 0xFF)
    yes += [t + bytes([b]) for t in TAGS for b in ends] + [bytes([b]) + t for t in TAGS for b in ends if b] + [t[:-1] + bytes([t[-1] ^ 128]) for t in TAGS]
    yes += [t + t for t in TAGS] + [bytes(reversed(t)) for t in TAGS] + [b"\xDF\x81" + bytes([b]) for b in range(256)]
    yes = [t for t in yes if t not in DECODABLE and t[0]]
    for i in range(0, len(yes), 400):
        yield make(parts("ingenico", " ".join("T%s:00:a" % t.hex() for t in yes[i:i + 400])))
    # no listing shows a tag of several bytes that begins with a zero
    changes = [lambda t: b"\0" + t, lambda t: t + b"\0", lambda t: b"\0\0" + t, lambda t: t + t, lambda t: t[::-1], lambda t: t[:-1],
               lambda t: bytes([t[0] ^ 0x20]) + t[1:], lambda t: t[:-1] + bytes([t[-1] ^ 128]), lambda t: t + b"\x01", lambda t: b"\x9F" + t]
    for t in TAGS:
        for f in changes[:1] + (changes[1:] if deep else [r.choice(changes[1:]) for _ in range(2)]):
            if f(t):
                yield make(parts("identify", f(t).hex()))


SPECIAL = {f.__name__: f for f in (long_values, deep_nesting, all_tags, all_codes, all_services, all_rules, all_bytes, coloured_bits, wide_sizes, odd_tags, crowded, swarms, far_apart, many_options)}
