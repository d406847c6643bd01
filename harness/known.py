"""The cases of KNOWN_FINDINGS.txt that haven't been repaired."""
import os, re
from sut import VERIF, case

CASES = {
    "deep-toml": dict(case("--ber", "50012A"), rawfile="x=" + "[" * 20000),
    "deep-variable": dict(case("--ber", "50012A"), rawenv={"PEMV_X": "[" * 100000}),
}


def report(prop, runner):
    """Prints a line for each known finding of the property that's still there."""
    from sut import observation
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8") as f:
        for line in f:
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)$", line)
            if m and m.group(1) == prop:
                rc, out, err, _ = runner.run(CASES[m.group(2)])
                if observation(rc, out, err, (), False)["class"] == "crash":
                    print("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))
