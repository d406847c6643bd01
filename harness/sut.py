"""Building the program under test and observing single invocations of it."""
import fcntl, functools, json, os, random, re, select, shutil, struct, subprocess, sys, tempfile, termios, time, tty

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PEMV_REPO", "/repo")
NOT_UNICODE = 1114112


DECOY = """[default]
cli_colour = "always"
masking_characters = ["2", "0"]
sort_parsed_tags = false
[global]
cli_colour = "always"
masking_characters = ["2", "0"]
sort_parsed_tags = false
"""


class ToolError(Exception):
    """Something other than the program under test went wrong."""


# ---------------------------------------------------------------- building
def build(scratch):
    """Builds /repo's working tree as /opt/vp/build.sh does; the path of the binary."""
    env = {
        "HOME": os.environ.get("HOME", "/root"),
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "1", "CARGO_TERM_COLOR": "never",
        "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "RUSTC_WRAPPER": "",
        "RUSTFLAGS": "--check-cfg=cfg(tarpaulin) --check-cfg=cfg(tarpaulin_include)",
    }
    for name in ("RUSTUP_HOME", "CARGO_HOME"):
        if name in os.environ:
            env[name] = os.environ[name]
    last = ""
    for target in (os.path.join(REPO, "target"), os.path.join(VERIF, ".build", "target")):
        try:
            os.makedirs(target, exist_ok=True)
            lock = open(os.path.join(target, ".pemv-verif.lock"), "w")
        except OSError as e:
            last = str(e)
            continue
        with lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            # cargo goes by mtime
            for f in ("src/main.rs", "build.rs"):
                subprocess.run(["touch", "-c", os.path.join(REPO, f)])
            p = subprocess.run(["cargo", "build", "--locked", "--offline"], cwd=REPO,
                               env=dict(env, CARGO_TARGET_DIR=target),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
            last = p.stdout.decode("utf-8", "replace")
            binary = os.path.join(target, "debug", "pemv")
            if p.returncode == 0 and os.path.exists(binary):
                # a copy of our own: another build must not pull it away from under us
                own = tempfile.mkdtemp(prefix="bin-", dir=scratch)
                shutil.copy2(binary, os.path.join(own, "pemv"))
                with open(os.path.join(own, "pemv.toml"), "w") as o:      # no place where settings are looked for
                    o.write(DECOY)
                return os.path.join(own, "pemv")
    raise ToolError("the program can't be built:\n" + last[-3000:])


# ---------------------------------------------------------------- inputs
def text_of(arg):
    """An argument as code points."""
    if isinstance(arg, str):
        arg = arg.encode("utf-8", "surrogateescape")
    return [ord(c) if not 0xDC80 <= ord(c) <= 0xDCFF else NOT_UNICODE + ord(c) - 0xDC00
            for c in arg.decode("utf-8", "surrogateescape")]


def layer(colour=None, masks=None, sort=None):
    """A layer of settings; '?' for a value that isn't one."""
    return {"colour": colour, "masks": masks, "sort": sort}


def abstract_layer(l):
    l = l or {}
    out = {"colour": [], "masks": [], "sort": []}
    if l.get("colour") is not None:
        out["colour"] = [l["colour"] if l["colour"] in ("auto", "always", "ansi", "never") else "?"]
    if l.get("masks") is not None:
        out["masks"] = [[-1] if l["masks"] == "?" else [ord(c) for c in l["masks"]]]
    if l.get("sort") is not None:
        out["sort"] = [{True: "true", False: "false"}.get(l["sort"], "?")]
    return out


PLAIN = set("*#+aAbcxyz%@!")


def toml_layer(l, r=None):
    """The lines of a profile; with a generator, in any of the ways that mean the same."""
    rows = []
    pick = r.choice if r else (lambda options: options[0])
    if l.get("colour") is not None:
        rows.append(("cli_colour", "7" if l["colour"] == "?" else pick(('"%s"', "'%s'", '"""%s"""')) % l["colour"]))
    if l.get("masks") is not None:
        text = '["ab"]' if l["masks"] == "?" else json.dumps(list(l["masks"]), ensure_ascii=False)
        if r and set(l["masks"]) <= PLAIN:
            text = pick((text, "['%s']" % "','".join(l["masks"]) if l["masks"] else "[ ]", "[\n  %s # several\n]" % "".join('"%s",\n' % m for m in l["masks"])))
        rows.append(("masking_characters", text))
    if l.get("sort") is not None:
        rows.append(("sort_parsed_tags", {True: "true", False: "false"}.get(l["sort"], '"perhaps"')))
    if r and r.random() < .3:
        rows.append(pick((("profile", '"other"'), ("unknown", "[1, 2.5]"), ("colour", '"always"'), ("sort", "false"), ("nested", "{ cli_colour = 3 }"))))
    if r:
        r.shuffle(rows)
    return rows


def toml_file(f, r=None):
    if f.get("broken"):
        return {1: "[default\nsort_parsed_tags = ", 2: "sort_parsed_tags = false\n",
                3: "[default]\nsort_parsed_tags = false\n[default]\n"}[f["broken"]]
    out = ["# a comment\n"] if r and r.random() < .2 else []
    dotted, tables = [], []
    for name, l in f.get("profiles", []):
        rows = toml_layer(l, r)
        how = r.random() if r else 0
        if name not in (name.strip(), name.strip("-_")) or not all(x.isalnum() or x in "-_" for x in name) or not name.isascii() or not name:
            name = json.dumps(name, ensure_ascii=False)
        elif r and r.random() < .2:
            name = '"%s"' % name
        if how < .6 or not rows:
            tables.append("[%s]\n%s\n" % (name, "".join("%s = %s\n" % x for x in rows)))
        elif how < .8 or any("\n" in v for _, v in rows):
            dotted.append("".join("%s.%s=%s\n" % (name, k, v) for k, v in rows))
        else:
            dotted.append("%s = { %s }\n" % (name, ", ".join("%s = %s" % x for x in rows)))
    if r and r.random() < .15:
        tables.append("[unrelated.%s]\ncli_colour = 1\nsort_parsed_tags = 'no'\n" % r.choice(("default", "global", "x")))
    text = "".join(out + dotted + tables)
    if r and r.random() < .1:
        text = text.replace("\n", "\r\n")
    return text


def env_layer(l, r=None):
    env = {}
    pick = r.choice if r else (lambda options: options[0])
    named = lambda name: pick((name, name, name, name.lower(), name.title()))
    if l.get("colour") is not None:
        env[named("PEMV_CLI_COLOUR")] = "sometimes" if l["colour"] == "?" else pick(("%s", '"%s"', " %s ")) % l["colour"]
    if l.get("masks") is not None:
        text = '["ab"]' if l["masks"] == "?" else "[" + ", ".join('"%s"' % c for c in l["masks"]) + "]"
        if r and set(l["masks"]) <= PLAIN:
            text = pick((text, "[%s]" % ",".join(l["masks"]), "['%s']" % "' ,'".join(l["masks"]) if l["masks"] else "[]", text))
        env[named("PEMV_MASKING_CHARACTERS")] = text
    if l.get("sort") is not None:
        env[named("PEMV_SORT_PARSED_TAGS")] = pick(("%s", "%s", " %s", "%s ")) % {True: "true", False: "false"}.get(l["sort"], "perhaps")
    if r and r.random() < .2:
        env[pick(("PEMV_UNKNOWN", "PEMV_COLOUR", "PEMV_", "PEMVX_CLI_COLOUR", "CLI_COLOUR", "SORT_PARSED_TAGS", "PEMV_DEFAULT", "PEMV_GLOBAL"))] = pick(("always", "false", "", "[1,2]"))
    return env


# Invocations whose output is too much to look at, and the time they may take.
SKIMMED = {"bottomless": 150, "swarm": 10}
# How far the specification follows them.
FOLLOWED = {"bottomless": "write", "swarm": "dispatch"}
NO_FILE = ("missing", "empty", "directory")


def case(*argv, env=None, profile=None, files=(), named=None, tty=False, nocolor=False, term="", mates=(), note="", style=0, ambient=0):
    """An invocation.

    files: up to three files {"profiles": [(name, layer)], "broken": 0..3} or None: pemv.toml in the
    working directory, its parent and its grandparent.  named: None, or ("abs"|"rel"|"up", file): PEMV_CONFIG;
    ("missing"|"empty"|"directory", file) when it names no file.  style: how settings are written down, of all the ways that mean the same (0: plainly).  ambient: what is around it and shouldn't matter (0: nothing).
    """
    return {"argv": list(argv), "env": env, "profile": profile, "files": list(files), "named": named,
            "tty": tty, "nocolor": nocolor, "term": term, "mates": list(mates), "note": note, "style": style, "ambient": ambient}


def abstract_file(f):
    if f is None:
        return {"there": False, "broken": False, "profiles": []}
    return {"there": True, "broken": bool(f.get("broken")),
            "profiles": [{"name": text_of(n), "layer": abstract_layer(l)} for n, l in f.get("profiles", [])]}


def abstract_input(c):
    if c["named"] is None:
        dirs = [abstract_file(f) for f in c["files"]]
    else:
        dirs = [abstract_file(None if c["named"][0] in NO_FILE else c["named"][1])]
    return {"argv": [text_of(a) for a in c["argv"]], "env": abstract_layer(c["env"]),
            "profile": [] if c["profile"] is None else [text_of(c["profile"])], "dirs": dirs,
            "tty": c["tty"], "nocolor": c["nocolor"], "term": c["term"]}


# ---------------------------------------------------------------- running
class Runner:
    """Runs invocations in a scratch directory of its own."""
    TIMEOUT = 20

    def __init__(self, binary, scratch):
        self.binary = binary
        self.root = tempfile.mkdtemp(prefix="run-", dir=scratch)
        self.levels = [self.root]                # the working directory and all of its ancestors down to the root
        for name in "abcdefghijkl":
            self.levels.insert(0, os.path.join(self.levels[0], name))
        self.dirs = self.levels[:3]
        os.makedirs(self.dirs[0])
        d = self.root
        while True:
            if os.path.exists(os.path.join(d, "pemv.toml")):
                raise ToolError("there's a pemv.toml in " + d)
            if d == "/":
                break
            d = os.path.dirname(d)

    def run(self, c):
        env = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}
        made = []
        r = random.Random(c["style"]) if c["style"] else None
        # it doesn't matter how far away the files are, nor what else is there
        self.dirs = [self.levels[k] for k in ([0] + sorted(r.sample(range(1, len(self.levels)), 2)) if r and r.random() < .4 else (0, 1, 2))]
        if r and r.random() < .2:
            made.append(os.path.join(r.choice(self.levels), r.choice((".git", ".hg", ".config", "src"))))
            os.mkdir(made[-1])
        for d, f in zip(self.dirs, c["files"]):
            if f is None and r and r.random() < .15:
                made.append(os.path.join(d, "pemv.toml"))
                if r.random() < .5:
                    os.mkdir(made[-1])
                else:
                    os.symlink("/nonexistent/pemv.toml", made[-1])
            if f is not None:
                made.append(os.path.join(d, "pemv.toml"))
                if r and r.random() < .1:
                    os.symlink("pemv.settings", made[-1])
                    made.append(os.path.join(d, "pemv.settings"))
                with open(made[-1], "w", encoding="utf-8", newline="") as o:
                    o.write(toml_file(f, r))
        if c["named"] is not None:
            how, f = c["named"]
            name = "named.toml"
            path = os.path.join(self.dirs[2 if how == "up" else 0 if how == "rel" else 1], name)
            if how == "empty":
                path = ""
            elif how == "directory":
                path = r.choice((self.dirs[1], "..", ".", "/")) if r else self.dirs[1]
            if how not in NO_FILE:
                made.append(path)
                with open(path, "w", encoding="utf-8", newline="") as o:
                    o.write(toml_file(f, r))
            env["PEMV_CONFIG"] = name if how in ("rel", "up") else path
            if how == "rel" and r and r.random() < .5:
                env["PEMV_CONFIG"] = r.choice(("./%s", "../%s/%%s" % os.path.basename(self.dirs[0]), ".//./%s")) % name
        env.update(env_layer(c["env"] or {}, r))
        env.update(c.get("rawenv", {}))
        if c["nocolor"]:
            env["NO_COLOR"] = "1"
        if c["term"]:
            env["TERM"] = c["term"]
        around = Around(self, random.Random(c["ambient"]), c, env) if c.get("ambient") else None
        if "rawfile" in c:
            made.append(os.path.join(self.dirs[0], "pemv.toml"))
            with open(made[-1], "w", encoding="utf-8", newline="") as o:
                o.write(c["rawfile"])
        if c["profile"] is not None:
            env["PEMV_PROFILE"] = c["profile"]
        argv = [self.binary] + [a if isinstance(a, bytes) else a.encode("utf-8", "surrogateescape") for a in c["argv"]]
        try:
            if around:
                return around.observe(argv)
            return self.observe(argv, env, c["tty"], SKIMMED.get(c["note"])) + ((),)
        finally:
            if around:
                around.remove()
            for f in made:
                if os.path.isdir(f) and not os.path.islink(f):
                    os.rmdir(f)
                else:
                    os.unlink(f)

    def observe(self, argv, env, on_tty, skim, stdin=subprocess.DEVNULL, size=None, umask=-1, gone=False, name=None, into_file=False, err_tty=False):
        """Exit status ("timeout" if it had to be stopped), standard output and standard error."""
        limit = skim or self.TIMEOUT
        master = err_master = err_slave = None
        into_file = tempfile.TemporaryFile() if into_file and not on_tty else None
        if err_tty:
            err_master, err_slave = os.openpty()
            tty.setraw(err_slave)
        if on_tty:
            master, slave = os.openpty()
            tty.setraw(slave)
            if size:
                fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", size[0], size[1], 0, 0))
        p = subprocess.Popen(argv if name is None else [name] + argv[1:], executable=argv[0] if name is not None else None, cwd=self.dirs[0], env=env,
                             stdin=stdin, stderr=err_slave if err_tty else subprocess.PIPE,
                             stdout=slave if on_tty else into_file if into_file else subprocess.PIPE, umask=umask,
                             preexec_fn=leave_nowhere if gone else None)
        if on_tty:
            os.close(slave)
        if err_tty:
            os.close(err_slave)
        source = master if on_tty else None if into_file else p.stdout.fileno()
        err_source = err_master if err_tty else p.stderr.fileno()
        parts, size, deadline, late = {fd: [] for fd in (source, err_source) if fd is not None}, 0, time.time() + limit, False
        poll = select.poll()
        for fd in parts:
            poll.register(fd, select.POLLIN | select.POLLHUP | select.POLLERR)
        left = len(parts)
        while left and not late:
            for fd, _ in poll.poll(1000):
                try:
                    part = os.read(fd, 1 << 20)
                except OSError:              # what a closed terminal gives
                    part = b""
                if not part:
                    poll.unregister(fd)
                    left -= 1
                    continue
                size += len(part)
                if not skim or not parts[fd]:
                    parts[fd].append(part)
            late = time.time() > deadline or size > (1 << 30 if skim else 1 << 26)
        if late:
            p.kill()
            p.wait()
            rc = "timeout"
        else:
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
        err = b"".join(parts[err_source])
        if into_file:
            into_file.seek(0)
            out = into_file.read()
            into_file.close()
        else:
            out = b"".join(parts[source])
        for fd in (master, err_master):
            if fd is not None:
                os.close(fd)
        for f in (p.stdout, p.stderr):
            if f is not None:
                f.close()
        return rc, out, err


def leave_nowhere():
    """Into a working directory that is no more."""
    mask = os.umask(0o077)
    d = tempfile.mkdtemp(dir=".")
    os.umask(mask)
    os.chdir(d)
    os.rmdir(os.path.join("..", os.path.basename(d)))


def chosen(r, options, k=.5):
    return {n: r.choice(v) for n, v in options if r.random() < k}


CALLS = "open,openat,openat2,creat,unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,rmdir,symlink,symlinkat,link,linkat,mknod,mknodat," \
        "truncate,ftruncate,chmod,fchmod,fchmodat,chown,fchown,lchown,fchownat,utimensat,socket,connect,execve,execveat,fork,vfork,clone,clone3," \
        "read,readv,pread64,kill,tkill,tgkill,setuid,chdir,mount,umount2,shmget,memfd_create"


@functools.lru_cache(None)
def tracer():
    """strace, if it works here."""
    path = shutil.which("strace")
    if path:
        p = subprocess.run([path, "-f", "-qq", "-y", "-e", "trace=" + CALLS, "-o", "/dev/null", "/bin/true"], stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode == 0 and not p.stdout and not p.stderr:
            return path
    return None


class Around:
    """What is around an invocation without being one of its inputs, and what the invocation does to it."""
    DECOYS = (".pemv.toml", "pemv.json", "pemv.yaml", "pemv.yml", "Pemv.toml", "PEMV.toml", "pemv.toml.bak", "pemv.toml~", "pemv.conf", "pemv.ini", ".env",
              "config.toml", ".pemvrc", "pemv", "settings.toml", "pemv.local.toml", "pemv.default.toml", "named.toml.bak", "Rocket.toml", "Cargo.toml", "ParseEMV.toml")

    CALLED = ("pemv", "./pemv", "/usr/bin/pemv", "//pemv", "", "-pemv", "tvr", "tsi", "pemv-debug", "--help", "--no-sort", "identify", "PEMV", "ber-tlv", "pemv.exe", "sort", "pemv --sort=false",
              "never", "-m", "é", "../pemv.toml")

    def __init__(self, runner, r, c, env):
        self.runner, self.c, self.env = runner, c, env
        self.root = os.path.join(runner.root, "around")
        home, tmp = os.path.join(self.root, "home"), os.path.join(self.root, "tmp")
        for d in (os.path.join(home, ".config", "pemv"), os.path.join(home, "pemv"), tmp):
            os.makedirs(d)
        self.made = []
        for d in [os.path.join(home, x) for x in ("", ".config", ".config/pemv", "pemv")] + runner.dirs:
            for name in r.sample(self.DECOYS + (("pemv.toml",) if d not in runner.dirs else ()), 4):
                self.decoy(os.path.join(d, name))
        if not os.path.exists(os.path.join(home, "pemv.toml")):
            self.decoy(os.path.join(home, "pemv.toml"))
        if c["named"] is not None and c["named"][0] in ("abs", "up"):
            self.decoy(os.path.join(runner.dirs[0], "pemv.toml"))
        self.decoy(os.path.join(runner.dirs[0], "pemv.toml.d"))
        for a in c["argv"]:                     # files that arguments might be taken to name
            a = (a.decode("utf-8", "replace") if isinstance(a, bytes) else a).split("=")[-1]
            if re.match(r"^[A-Za-z0-9 ]{1,100}$", a) and r.random() < .3:
                self.decoy(os.path.join(runner.dirs[0], a))
        env.update(chosen(r, (
            ("LANG", ("C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.EUC-JP", "")), ("LC_ALL", ("C", "POSIX", "tr_TR.UTF-8", "C.UTF-8")), ("LC_NUMERIC", ("de_DE.UTF-8",)),
            ("LANGUAGE", ("de", "tr:en")), ("TZ", ("UTC", "Asia/Kolkata")), ("HOME", (home, "/nonexistent", "")), ("XDG_CONFIG_HOME", (home, os.path.join(home, ".config"))),
            ("XDG_CONFIG_DIRS", (home,)), ("XDG_DATA_HOME", (home,)), ("XDG_CACHE_HOME", (home,)), ("XDG_STATE_HOME", (home,)), ("XDG_RUNTIME_DIR", (tmp,)),
            ("PEMVRC", (os.path.join(home, "pemv.toml"),)), ("EDITOR", ("cat",)), ("MANPAGER", ("cat",)), ("LESS", ("-R",)), ("HOSTNAME", ("x",)), ("NO_COLOUR", ("1",)),
            ("TMPDIR", (tmp,)), ("COLUMNS", ("10", "40", "80", "200", "0", "x")), ("LINES", ("2", "24")),
            ("USER", ("root", "nobody", "")), ("LOGNAME", ("x",)), ("SHELL", ("/bin/sh",)), ("RUST_LOG", ("trace", "debug")), ("PWD", (home, "/nonexistent", runner.dirs[2])),
            ("OLDPWD", (home,)), ("CLICOLOR", ("0", "1")), ("CLICOLOR_FORCE", ("0", "1")), ("FORCE_COLOR", ("0", "1")), ("COLORTERM", ("truecolor",)),
            ("TERM_PROGRAM", ("x",)), ("CI", ("true",)), ("DEBUG", ("1", "*")), ("VERBOSE", ("1",)), ("PAGER", ("cat",)), ("PROFILE", ("other", "work")),
            ("CONFIG", (os.path.join(home, "pemv.toml"),)), ("CLI_COLOUR", ("always",)), ("SORT_PARSED_TAGS", ("false",)), ("MASKING_CHARACTERS", ("[2]",)),
            ("ROCKET_PROFILE", ("work",)), ("FIGMENT_PROFILE", ("work",)), ("PEMV", ("--sort=false",)), ("PEMVX", ("1",)), ("PEMVSORT", ("false",)), ("XPEMV_SORT_PARSED_TAGS", ("false",)),
            ("PATH", ("", "/usr/bin:/bin", home)), ("ANSI_COLORS_DISABLED", ("1",)), ("SOURCE_DATE_EPOCH", ("1",))), .4))
        if not c["tty"] and not env.get("TERM") and "NO_COLOR" not in env:
            env.update(chosen(r, (("TERM", ("dumb", "xterm", "xterm-256color", "")), ("NO_COLOR", ("", "1", "0")))))
        elif "NO_COLOR" in env:
            env["NO_COLOR"] = r.choice(("1", "0", "false", "no"))
        for name in [n for n in env if r.random() < .02 and not n.upper().startswith("PEMV_") and n not in ("TERM", "NO_COLOR")]:
            env.pop(name)
        self.stdin = r.choice(("null", "text", "text", "open", "file", "terminal"))
        self.size = r.choice((None, (1, 1), (24, 80), (5, 20), (200, 1000)))
        self.umask = r.choice((0, 0o022, 0o077))
        self.gone = not any(c["files"]) and c["named"] is None and r.random() < .15
        self.traced = r.random() < .3 and tracer() is not None
        self.into_file, self.err_tty = r.random() < .2, r.random() < .2
        # (what the program is called is part of its help)
        self.name = r.choice(self.CALLED if c.get("parts") else self.CALLED[:4]) if not self.traced and r.random() < .4 else None

    def decoy(self, path):
        if os.path.lexists(path):
            return
        self.made.append(path)
        with open(path, "w") as o:
            o.write(DECOY if not path.endswith(".env") else "PEMV_SORT_PARSED_TAGS=false\nPEMV_CLI_COLOUR=always\n")

    def everything(self):
        """All files, with what shows whether they were changed."""
        out = set()
        for d, ds, fs in os.walk(self.runner.root):
            for x in ds + fs:
                path = os.path.join(d, x)
                s = os.lstat(path)
                out.add((os.path.relpath(path, self.runner.root), s.st_mode, s.st_size, s.st_mtime_ns if x in fs else 0))
        return out

    def observe(self, argv):
        """As Runner.observe, and what was done besides."""
        trace = os.path.join(self.runner.root, "trace")
        if self.traced:
            argv = [tracer(), "-f", "-qq", "-y", "-s", "20", "-e", "signal=none", "-e", "trace=" + CALLS, "-o", trace] + argv
        fds = []
        try:
            if self.stdin in ("text", "open"):
                a, b = os.pipe()
                fds = [a] + ([b] if self.stdin == "open" else [])
                os.write(b, b"--no-sort\n5F24022B2B\n")
                if self.stdin == "text":
                    os.close(b)
            elif self.stdin == "file":
                fds = [os.open(os.path.join(self.runner.dirs[0], "pemv.toml.d"), os.O_RDONLY)]
            elif self.stdin == "terminal":
                a, b = os.openpty()
                fds = [b, a]
            before = self.everything()
            rc, out, err = self.runner.observe(argv, self.env, self.c["tty"], None, fds[0] if fds else subprocess.DEVNULL, self.size, self.umask, self.gone, self.name, self.into_file, self.err_tty)
            did = []
            if self.traced and os.path.exists(trace):
                with open(trace, encoding="utf-8", errors="replace") as f:
                    did = untoward(f.read())
                os.unlink(trace)
            left = sorted(set(x[0] for x in before ^ self.everything()))
            return rc, out, err, tuple(did + ["changed " + x for x in left])
        finally:
            for fd in fds:
                os.close(fd)

    def remove(self):
        for f in self.made:
            if os.path.lexists(f):
                os.unlink(f)
        shutil.rmtree(self.root)


def untoward(trace):
    """The system calls of a trace by which a program does more than to read files and to write to its streams."""
    out, begun = [], False
    for line in trace.split("\n"):
        m = re.match(r"^[0-9]* *(?:<\.\.\. )?([a-z0-9_]+)(?:\(| resumed)(.*)$", line)
        if not m:
            continue
        call, rest = m.groups()
        if call == "execve" and not begun:
            begun = True
        elif re.search(r"= -1 E[A-Z]+ ", rest) and call not in ("socket", "connect"):
            pass
        elif call in ("open", "openat", "openat2"):
            if re.search(r"O_(WRONLY|RDWR|CREAT|TRUNC|APPEND|TMPFILE)", rest) and not re.search(r'"/dev/(null|tty|pts/[0-9]+)"', rest):
                out.append(line[:150])
        elif call in ("read", "readv", "pread64"):
            if rest.startswith("0<") or rest.startswith("0,"):
                out.append("reads standard input")
        elif call in ("clone", "clone3") and "CLONE_THREAD" in rest:
            pass
        elif call != "chdir":
            out.append(line[:150])
    return out


# ---------------------------------------------------------------- reading output
SGR = re.compile("\x1b\\[([0-9;]*)m")


def style_name(attrs):
    return {(): "", ("1",): "b", ("1", "36"): "h", ("31",): "red", ("33",): "yel"}.get(tuple(attrs), "?" + ";".join(attrs))


def read_lines(text):
    """Lines with their indentation and styled spans; were there escape sequences?"""
    if text == "":
        return [], False
    attrs, lines = [], []
    parts = text.split("\n")
    closed = parts[-1] == "" or SGR.sub("", parts[-1]) == ""
    tail = parts.pop()
    for k, part in enumerate(parts if closed else parts + [tail]):
        spans, n, begun, pos = [], 0, False, 0
        for m in list(SGR.finditer(part)) + [None]:
            chunk = part[pos:m.start() if m else len(part)]
            while chunk.startswith("\t") and not begun:
                n += 1
                chunk = chunk[1:]
            if chunk:
                begun = True
                s = style_name(attrs)
                if spans and spans[-1][0] == s:
                    spans[-1][1] += chunk
                else:
                    spans.append([s, chunk])
            if m:
                pos = m.end()
                for a in (m.group(1) or "0").split(";"):
                    if a in ("0", "00"):
                        attrs = []
                    else:
                        attrs = sorted(attrs + [a])
        lines.append({"n": n, "s": spans})
    if not closed:
        lines.append({"n": 0, "s": [["?", "<no line feed at the end>"]]})
    return lines, "\x1b" in text


TAG = re.compile(r"^Tag: 0x((?:[0-9A-F]{2})+) - (\?\?|[0-9]+) bytes? - (.*)$", re.S)
DUMP = re.compile(r"^((?:[0-9A-F]{2} ){0,15}[0-9A-F]{2}) *  (.*)$", re.S)
KIDS = "Constructed Data Object's Child Tags:"


class Unreadable(Exception):
    pass


def dump_bytes(lines, i, n):
    """The bytes of a dump, whose lines are the ones at indentation n from i on."""
    data = []
    while i < len(lines) and lines[i][0] == n:
        hexa = lines[i][1][:47].rstrip(" ")
        if not re.match(r"^[0-9A-F]{2}( [0-9A-F]{2})*$", hexa):
            raise Unreadable("dump")
        data += bytes.fromhex(hexa)
        i += 1
    return data, i


DEEPEST = 300


def read_objects(lines, i, n):
    nodes = []
    while i < len(lines):
        if nodes:
            if lines[i] == (0, "") and i + 1 < len(lines) and lines[i + 1][0] == n and TAG.match(lines[i + 1][1]):
                i += 1
            else:
                break
        if lines[i][0] != n:
            raise Unreadable("indentation of line %d" % i)
        m = TAG.match(lines[i][1])
        if not m:
            raise Unreadable("line %d isn't a tag" % i)
        node = {"tag": list(bytes.fromhex(m.group(1))), "len": -1 if m.group(2) == "??" else min(int(m.group(2)), 2 ** 31 - 1),
                "name": m.group(3), "masked": False, "data": [], "parsed": False, "view": [], "kids": []}
        i += 1
        if i < len(lines) and lines[i] == (n, "* Masked *"):
            node["masked"] = True
            i += 1
        if i < len(lines) and lines[i] == (n, "Raw:"):
            node["data"], i = dump_bytes(lines, i + 1, n + 1)
        if i < len(lines) and lines[i] == (n, "Parsed:"):
            node["parsed"] = True
            i += 1
            while i < len(lines) and lines[i][0] > n:
                node["view"].append({"n": lines[i][0] - n - 1, "t": lines[i][1]})
                i += 1
        if i < len(lines) and lines[i] == (n, KIDS):
            kids, i = read_objects(lines, i + 1, n + 1)
            node["kids"] = kids if n < DEEPEST else []
        nodes.append(node)
    return nodes, i


def read_listing(lines):
    flat = [(l["n"], "".join(t for _, t in l["s"])) for l in lines]
    fmt = ""
    try:
        if flat and flat[0][0] == 0 and flat[0][1].startswith("TLV Format: "):
            fmt = flat[0][1][len("TLV Format: "):]
            if len(flat) < 2 or flat[1] != (0, ""):
                raise Unreadable("after the format")
            flat = flat[2:]
        nodes, i = read_objects(flat, 0, 0)
        if i != len(flat):
            raise Unreadable("line %d" % i)
        return True, fmt, nodes
    except (Unreadable, RecursionError):
        return False, fmt, []


def error_kind(err):
    if not err:
        return ""
    text = "\n".join(err)
    if "wrong number of bytes" in text or re.search(r"Expected:.*[0-9]+.*Found:.*[0-9]+", text):
        return "size"
    if "not divisible" in text:
        return "indivisible"
    if "CCD" in text:
        return "nonccd"
    if "unrecognised" in text:
        return "unrecognised"
    if "unsupported" in text:
        return "unsupported"
    if "not a valid number" in text:
        return "number"
    if "compliant" in text:
        return "noncompliant"
    return "other"


sys.setrecursionlimit(20000)


def rows_of(tree, depth=0):
    """A tree as the sequence of its objects with their depths: JSON readers don't like deep trees."""
    out = []
    for x in tree:
        out.append({k: v for k, v in x.items() if k != "kids"} | {"depth": depth})
        out += rows_of(x["kids"], depth + 1)
    return out


def observation(rc, out, err, did, listing, skim=False):
    if skim:
        out = out[:60]
    otext, etext = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    lines, esc = read_lines(otext)
    elines = etext.split("\n")[:-1] if etext.endswith("\n") else (etext.split("\n") if etext else [])
    if rc == "timeout" or rc < 0 or rc == 101 or "panicked at" in etext:
        klass = "crash"
    elif out and err:
        klass = "mixed"
    elif rc == 2 and err:
        klass = "usage"
    elif err:
        klass = "error"
    elif re.match(r"^ParseEMV [0-9][^\n]*\n$", otext):
        klass = "version"
    elif "Usage:" in otext and "ParseEMV" in otext:
        klass = "help"
    else:
        klass = "answer"
    ok, fmt, tree = (False, "", [])
    if listing and klass == "answer":
        ok, fmt, tree = read_listing(lines)
    if klass in ("help", "version"):
        lines = [{"n": 0, "s": [["", klass]]}]
    return {"class": klass, "rc": -1 if rc == "timeout" else rc, "out": lines, "esc": esc, "err": elines[:40],
            "kind": error_kind(elines), "nums": [min(int(x), 2 ** 31 - 1) for x in re.findall(r"[0-9]+", etext)][:4] if klass == "error" and len(etext) < 400 else [],
            "format": fmt, "treeok": ok, "rows": rows_of(tree), "did": list(did)[:10]}
