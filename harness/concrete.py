"""From the inputs of the specification to invocations of the real program."""
from sut import NOT_UNICODE, case


def arg_of(codes):
    if any(c >= NOT_UNICODE for c in codes):
        return b"".join(bytes([c - NOT_UNICODE]) if c >= NOT_UNICODE else chr(c).encode() for c in codes)
    return "".join(map(chr, codes))


def layer_of(l):
    out = {}
    if l["colour"]:
        out["colour"] = l["colour"][0]
    if l["masks"]:
        out["masks"] = "?" if l["masks"][0] == [-1] else "".join(map(chr, l["masks"][0]))
    if l["sort"]:
        out["sort"] = {"true": True, "false": False}.get(l["sort"][0], "?")
    return out or None


def file_of(f):
    if not f["there"]:
        return None
    return {"profiles": [(arg_of(p["name"]), layer_of(p["layer"]) or {}) for p in f["profiles"]],
            "broken": 1 if f["broken"] else 0}


def concrete(inp):
    return case(*[arg_of(a) for a in inp["argv"]], env=layer_of(inp["env"]),
                profile=arg_of(inp["profile"][0]) if inp["profile"] else None,
                files=[file_of(f) for f in inp["dirs"]], tty=inp["tty"], nocolor=inp["nocolor"], term=inp["term"])
