"""Running TLC."""
import os, re, resource, shutil, subprocess, tempfile, time
from sut import VERIF, ToolError

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class Result:
    def __init__(self, rc, text, seconds):
        self.rc, self.text, self.seconds = rc, text, seconds
        m = re.findall(r"([0-9,]+) states generated, ([0-9,]+) distinct states found", text)
        self.transitions, self.states = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.ok = rc == 0 and "No error has been found" in text
        # 10..13: assumption, deadlock, safety, liveness
        self.violated = rc in (10, 11, 12, 13)
        m = re.search(r"Invariant (\w+) is violated|[Pp]roperty (\w+)|(Deadlock reached)|(Assumption)", text)
        self.what = next((g for g in m.groups() if g), "") if m else ""

    def tagged(self, tag):
        """The texts after `tag` in what the specification printed."""
        out = []
        for line in self.text.split("\n"):
            if line.startswith('"' + tag + " "):
                out.append(line[len(tag) + 2:-1].replace('\\"', '"').replace("\\\\", "\\"))
        return out


def run(module, cfg=None, env=None, workers=8, heap="8g", extra=(), timeout=840, constants=None):
    """Checks spec/<module>.tla with spec/<cfg>.cfg."""
    meta = tempfile.mkdtemp(prefix="pemv-tlc-")
    cfgpath = os.path.join(SPEC, (cfg or module) + ".cfg")
    try:
        if constants:
            with open(cfgpath) as f:
                text = f.read()
            for name, value in constants.items():
                text, n = re.subn(r"(?m)^(\s*(?:CONSTANT\s+)?%s\s*=\s*).*$" % name, lambda m: m.group(1) + str(value), text)
                if n != 1:
                    raise ToolError("constant %s in %s" % (name, cfgpath))
            cfgpath = os.path.join(meta, os.path.basename(cfgpath))
            with open(cfgpath, "w") as f:
                f.write(text)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss256m", "-Xmx" + heap, "-Dfile.encoding=UTF-8",
               "-Dsun.stdout.encoding=UTF-8", "-Dsun.stderr.encoding=UTF-8", "-Djava.io.tmpdir=" + meta,
               "-cp", JARS, "tlc2.TLC", "-config", cfgpath, "-workers", str(workers), "-metadir", os.path.join(meta, "states"),
               "-noGenerateSpecTE", *extra, os.path.join(SPEC, module + ".tla")]
        started = time.time()
        e = dict(os.environ, LC_ALL="C.UTF-8", **(env or {}))
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s takes too long" % module)
        text = "\n".join(l for l in p.stdout.decode("utf-8", "replace").split("\n")
                         if not l.startswith(("Parsing file ", "Semantic processing ")))
        return Result(p.returncode, text, time.time() - started)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
