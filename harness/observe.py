"""Observing many invocations, in parallel; trace records."""
import json, multiprocessing
from cases import LONG, VALUE_OPS, parts, canonical, like
from sut import FOLLOWED, SKIMMED, Runner, abstract_input, observation

_runner = None
_stopped = 0
TLV_NAMES = {"--auto-tlv", "--auto", "--parse-tlv", "--parse", "-a", "--ber-tlv", "--ber", "-b", "--ingenico-tlv", "--ingenico", "-i"}


def _start(binary, scratch):
    global _runner
    _runner = Runner(binary, scratch)


def is_listing(c):
    for a in c["argv"]:
        if isinstance(a, bytes):
            a = a.decode("utf-8", "replace")
        if a.split("=")[0] in TLV_NAMES or a[:2] in ("-a", "-b", "-i"):
            return True
    return False


def _observe(c):
    global _stopped
    rc, out, err, did = _runner.run(c)
    if rc == "timeout":
        _stopped += 1
    return observation(rc, out, err, did, is_listing(c), c["note"] in SKIMMED)


def decoded(c, obs):
    """The values of a listing, given to the operations that there are for them."""
    out, seen = [], set()
    for x in obs["rows"]:
        op = VALUE_OPS.get(tuple(x["tag"]))
        key = (tuple(x["tag"]), tuple(x["data"]))
        if op and not x["masked"] and len(x["data"]) < 1000 and key not in seen and len(seen) < 12:
            seen.add(key)
            argv = canonical(parts(op, bytes(x["data"]).hex() or "-"))
            out.append({"tag": x["tag"], "data": x["data"], "obs": _observe(like(c, argv))})
    return out


def record(c):
    """A line of the trace, the number of runs, the class of the result; nothing once the program keeps hanging."""
    if _stopped >= 3:
        return None
    obs = _observe(c)
    mates = decoded(c, obs) if c.get("decode") else [_observe(m["case"]) for m in c["mates"]]
    line = json.dumps({"inp": abstract_input(c), "obs": obs, "mates": mates, "skim": FOLLOWED.get(c["note"], "")}, ensure_ascii=False)
    return line, 1 + len(mates), obs["class"]


def observe_all(binary, cases, path, scratch, workers=8):
    """Writes one trace record per case; returns the cases of the records, the number of runs and of results by class."""
    runs, classes, done = 0, {}, []
    with multiprocessing.Pool(workers, _start, (binary, scratch)) as pool, open(path, "w", encoding="utf-8") as f:
        for c, got in zip(cases, pool.imap(record, cases, chunksize=8)):
            if got is None:
                continue
            line, n, klass = got
            f.write(line + "\n")
            done.append(c)
            runs += n
            classes[klass] = classes.get(klass, 0) + 1
        pool.close()
        pool.join()
    return done, runs, classes
