"""C14: the command-line tool succeeds only when the whole report was delivered."""
import builtins
import contextlib
import errno
import io
import os
import random
import resource
import subprocess
import sys
import tempfile
import tty
import warnings

from sim import disk, gen as G, host, model as M, sched, stream
from sim.checks import common as C
from sim.engine import Result

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 32000, "thorough": 400000}
RULE = ("the command-line entry point is run on a seeded file (good, damaged, cut, empty, missing, a directory) with seeded options "
        "while opening or reading the file fails, the standard output fails, writes short or cannot encode, warnings are errors or a "
        "KeyboardInterrupt arrives at a seeded line; 1.5% of the runs are real processes writing to a pipe, a closed pipe, /dev/full or "
        "a size-limited file; exit status, bytes delivered, closing and contents of the file are compared with what the library "
        "prints; non-trivial: always")
MEASURE = "distinct (options, kind of file, fault kinds, exit status, size class of output) tuples"
REAL = C.REAL + ["argparse", "io layers (CPython)", "the file system (scratch directory)", "in 1.5% of runs: process, exit, pipes, /dev/full"]
STUB = ["process exit (emulated: sys.exit(main()), final flush, status 120 when it fails)", "failing devices"]
ASSUME = ["the tool opens its file through open() (io.open), else read faults are not injected"]
FLAGS = ["-t", "-j", "--json", "--target", "-a", "--all"]
NONSENSE = ["--nonsense", "-z"]
FILES = ["good"] * 6 + ["damaged", "damaged", "header", "cut", "short", "empty", "missing", "directory", "link"]
NAMES = ["a.lnk", "a.lnk", "\u017e \u20ac.lnk", "./-t.lnk", "sub/../a.lnk", "weird\udcff.lnk"]
# Names which mean something else to shells and other tools.
ODD = ["-", "~", "~/x.lnk", "$HOME", "${PATH}.lnk", "%TEMP%.lnk", "*", "[a].lnk", "@a.lnk", " a.lnk ", "a\nb.lnk", "file:a.lnk", "0", "1",
       "con", "a.lnk.gz", "a.zip", "a\\b.lnk", "A.LNK", "a"]
OPENS = ["ENOENT", "EACCES", "EMFILE", "EIO", "ENOMEM", "KeyboardInterrupt", "MemoryError"]
OUTS = ["pipe", "pipe", "full", "closed pipe", "limit", "file", "terminal", "closed", "read-only"]
NOWHERE = ["full", "closed pipe", "closed", "read-only"]
DECOY = M.build(G.gen_spec(random.Random(14), small=True)).data
_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), tempfile.TemporaryDirectory(prefix="lnk-c14-"))
    return _scratch[1].name


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.01, small=rng.random() < 0.8)
    link = M.build(spec)
    kind = rng.choice(FILES)
    n = len(link.data)
    faults = []
    if kind == "damaged":
        faults = [disk.overwrite(rng, link, 76) for _ in range(rng.choice([1, 2]))]
    elif kind == "header":
        faults = [["set", rng.randrange(76), rng.randrange(256)] for _ in range(rng.choice([1, 3]))]
    elif kind == "cut":
        faults = [["cut", disk.cut_at(rng, link)]]
    elif kind == "short":
        faults = [["cut", rng.choice([1, 3, 4, 20, 75, rng.randrange(1, 76)])]]
    elif kind == "empty":
        faults = [["cut", 0]]
    opts = []
    if rng.random() < 0.85:
        opts.append(rng.choice(["-t", "-j", "-j", "--json", "--target"]))
        if rng.random() < 0.3:
            opts.append("-j")
    if rng.random() < 0.3:
        opts.append(rng.choice(["-a", "--all"]))
    if rng.random() < 0.08:
        opts += cp_opt(rng, rng.choice(["no-such-codec", "rot13", ""]))
    elif spec.get("cp") and rng.random() < 0.9:
        opts += cp_opt(rng, spec["cp"])
    if rng.random() < 0.1:
        opts = [cluster(rng, opts)] + [o for o in opts if o not in FLAGS]
    if rng.random() < 0.02:
        opts.append(rng.choice(NONSENSE))
    scn = {"spec": spec, "kind": kind, "faults": faults, "opts": opts, "name": rng.choice(NAMES if rng.random() < 0.8 else ODD), "first": rng.random() < 0.5}
    if rng.random() < 0.015:
        scn["process"] = rng.choice(OUTS)
        scn["limit"] = rng.choice([0, 1, 100, 1000, 1 << 20])
        scn["unbuffered"] = rng.random() < 0.3
        scn["stdin"] = kind not in ("missing", "directory", "link") and rng.random() < 0.3
        scn["without"] = [d for d in (0, 2) if rng.random() < 0.15 and (d or not scn["stdin"])]
        return scn
    scn["out"] = stream.sink_config(rng)
    scn["writes"] = stream.write_plan(rng, 2500, not scn["out"]["buffer"], 0.3)
    scn["reads"] = stream.chunks(rng, n, rng.choice([0, 0, 1, 3, 10]))
    r = rng.random()
    if r < 0.15:
        scn["reads"].append(["fail", rng.choice(stream.READ_FAULTS)])
    elif r < 0.22:
        scn["open"] = rng.choice(OPENS)
    elif r < 0.28:
        scn["interrupt"] = rng.choice([1, 3, 10, 40, 150, rng.randrange(1, 900)])
    elif r < 0.32:
        scn["werror"] = True
    return scn


def cp_opt(rng, cp):
    """The ways to say which code page."""
    r = rng.random()
    if r < 0.5 or cp == "":
        return [rng.choice(["-c", "--codepage"]), cp]
    return ["-c" + cp if r < 0.75 else "--codepage=" + cp]


def cluster(rng, opts):
    """The single-letter flags in one word."""
    return "-" + "".join({o[-1] if len(o) == 2 else o[2] for o in opts if o in FLAGS} or {rng.choice("tja")})


def parse(opts):
    """-> flags ("t", "j", "a"), code page, or None when a word is none of ours"""
    flags, cp, i = set(), "cp1252", 0
    while i < len(opts):
        o = opts[i]
        if o in FLAGS:
            flags.add(o.strip("-")[0])
        elif o in ("-c", "--codepage"):
            i += 1
            if i >= len(opts):
                return None
            cp = opts[i]
        elif o.startswith("-c"):
            cp = o[2:]
        elif o.startswith("--codepage="):
            cp = o[11:]
        elif o not in NONSENSE and len(o) > 1 and set(o[1:]) <= set("tja"):
            flags |= set(o[1:])
        elif o not in NONSENSE:
            return None
        i += 1
    return flags, cp


class FileSource(stream.Source):
    """A real file whose reads follow the plan."""

    def __init__(self, path, plan):
        self.real = io.FileIO(path, "rb")
        super().__init__(self.real.readall(), plan)

    def fileno(self):
        return self.real.fileno()

    def close(self):
        if not self.closed:
            self.real.close()
        super().close()


def op_of(opts):
    f, _ = parse(opts)
    if "t" in f:
        return "target_json" if "j" in f else "target"
    return ("json" if "j" in f else "text") + ("_all" if "a" in f else "")


def expectation(data, scn):
    """-> what the library prints, or None when it raises."""
    o = scn["opts"]
    with host.Recorder():
        st, v = host.attempt(lambda: host.capture(host.open_link(None, parse(o)[1], True, io.BytesIO(data)), op_of(o)))
    return (v if st == "ok" and isinstance(v, str) else None), len(data) >= 76


class Terminal(stream.Sink):
    """The device under descriptor 1; writes through the descriptor itself reach it, too."""

    def __init__(self, plan):
        super().__init__(plan)
        self.saved, self.mem = os.dup(1), os.memfd_create("stdout")
        os.dup2(self.mem, 1)
        s = os.fstat(1)
        self.ident, self.direct = (s.st_dev, s.st_ino), 0

    def fileno(self):
        return 1

    def drain(self):
        b = os.pread(self.mem, 1 << 26, self.direct)
        self.direct += len(b)
        self.got += b

    def write(self, b):
        s = os.fstat(1)
        self.drain()
        if (s.st_dev, s.st_ino) != self.ident:  # redirected meanwhile
            self.fired["lost"] = self.fired.get("lost", 0) + 1
            return len(b)
        return super().write(b)

    def restore(self):
        self.drain()
        os.dup2(self.saved, 1)
        os.close(self.saved)
        os.close(self.mem)


class Opener:
    """open() with the simulated file behind one path."""

    def __init__(self, path, scn):
        self.path, self.scn = os.path.realpath(path), scn
        self.handles, self.sources, self.sent, self.openers, self.modes = [], [], [], set(), []
        self.real = io.open

    def __call__(self, file, mode="r", buffering=-1, *a, **kw):
        try:
            mine = os.path.realpath(os.fspath(file)) == self.path
        except TypeError:
            mine = False
        if not mine:
            return self.real(file, mode, buffering, *a, **kw)
        self.modes.append(mode)
        f = sys._getframe(1)
        while f and not f.f_code.co_filename.startswith(sched.HOME):
            f = f.f_back
        if f:
            self.openers.add(f.f_code)
        if "open" in self.scn:
            k = self.scn["open"]
            e = stream.fault(k) if k in ("KeyboardInterrupt", "MemoryError", "EIO") else OSError(getattr(__import__("errno"), k), "simulated", file)
            self.sent.append(e)
            raise e
        if set(mode) - set("rb") or "b" not in mode:
            h = self.real(file, mode, buffering, *a, **kw)
        else:
            raw = FileSource(self.path, self.scn["reads"])
            self.sources.append(raw)
            h = raw if buffering == 0 else io.BufferedReader(raw, buffering if buffering > 1 else 8192)
        self.handles.append(h)
        return h


def simulate(scn, path, res):
    """-> status, received bytes, opener, interrupted, during"""
    argv = list(scn["opts"])
    argv = [path] + argv if scn["first"] and not path.startswith("-") else argv + [path]
    sink = Terminal(scn["writes"])
    try:
        return simulated(scn, path, res, argv, sink)
    finally:
        sink.restore()


def simulated(scn, path, res, argv, sink):
    out = stream.stdout(sink, scn["out"])
    op = Opener(path, scn)
    old = sys.stdout, sys.stderr, sys.argv, builtins.open, io.open
    sys.stdout, sys.stderr, sys.argv = out, io.StringIO(), ["lnkparse"] + argv
    at = None
    strict = True
    try:
        builtins.open = io.open = op
        with warnings.catch_warnings():
            warnings.simplefilter("error" if scn.get("werror") else "ignore")
            n = scn.get("interrupt", 0)
            exc = KeyboardInterrupt()
            code_at = []

            def act():
                code_at.append(sys._getframe(3).f_code)
                raise exc

            with sched.At(n, act) if n else contextlib.nullcontext() as at:
                st, v = host.attempt(lambda: sys.exit(host.LNK.main()))
        if n and at.where:
            res.faults["interrupt: KeyboardInterrupt"] += 1
            strict = not any(c in op.openers for c in code_at)
    finally:
        err = sys.stderr
        harmed = sys.stdout is not out
        sys.stdout, sys.stderr, sys.argv, builtins.open, io.open = old
    open_left = [h for h in op.handles if not h.closed] if strict else []
    if isinstance(v, SystemExit):
        status = 0 if v.code is None else int(v.code) & 255 if isinstance(v.code, int) else 1
    else:
        status = 130 if isinstance(v, KeyboardInterrupt) else 1
    if not out.closed:
        fst, _ = host.attempt(out.flush)
        if fst == "err":
            status = 120
    sink.drain()
    got = bytes(sink.got)
    sink.plan = []
    host.attempt(out.close)
    for k, c in sink.fired.items():
        if c:
            res.faults["write: " + (k if k != "fail" else scn["writes"][-1][1])] += c
    for s in op.sources:
        res.sim_s += s.clock
        for k, c in s.fired.items():
            if c:
                res.faults["read: " + (k if k != "fail" else scn["reads"][-1][1])] += c
    if op.sent:
        res.faults["open: " + scn["open"]] += 1
    failed_input = bool(op.sent) or any(s.raised for s in op.sources)
    disturbed = failed_input or any(sink.fired[k] for k in ("fail", "would block")) or bool(at and at.where) or \
        bool(scn.get("werror"))
    return status, got, open_left, failed_input, disturbed, harmed, v, err.getvalue()


def process(scn, path, data):
    """A real process. -> status, received bytes"""
    if not scn.get("stdin"):
        return processed(scn, path, subprocess.DEVNULL)
    with tempfile.TemporaryFile() as f:
        # a pipe that holds the file, or, when it is too large for one, an unnamed file
        if len(data) <= stream.PIPE:
            r, w = os.pipe()
            os.write(w, data)
            os.close(w)
            with open(r, "rb") as r:
                return processed(scn, "/dev/stdin", r)
        f.write(data)
        f.flush()
        f.seek(0)
        return processed(scn, "/dev/stdin", f)


def processed(scn, path, inp):
    argv = [sys.executable, "-W", "ignore", "-m", "LnkParse3.lnk_file"] + scn["opts"] + [path]
    env = dict(os.environ, PYTHONUTF8="1")
    env.pop("PYTHONUNBUFFERED", None)
    if scn.get("unbuffered"):
        env["PYTHONUNBUFFERED"] = "1"
    how = scn["process"]
    d = os.getcwd()
    without = list(scn.get("without", []))

    def start(out, limit=None):
        """The tool, some of whose standard descriptors may be closed."""

        def before():
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            for d in without:
                os.close(d)

        return subprocess.Popen(argv, stdin=inp, stdout=out, stderr=subprocess.DEVNULL, env=env, preexec_fn=before)

    if how == "full":
        with open("/dev/full", "wb") as f:
            return start(f).wait(), None
    if how == "closed":
        without.append(1)
        return start(subprocess.DEVNULL).wait(), None
    if how == "read-only":
        with open("/dev/null", "rb") as f:
            return start(f).wait(), None
    if how == "closed pipe":
        r, w = os.pipe()
        os.close(r)
        try:
            return start(w).wait(), None
        finally:
            os.close(w)
    if how == "terminal":
        m, s = os.openpty()
        tty.setraw(s)
        p = start(s)
        os.close(s)
        got = b""
        with open(m, "rb", 0) as f:
            try:
                while b := f.read(65536):
                    got += b
            except OSError as e:  # nobody has the other end any more
                if e.errno != errno.EIO:
                    raise
        return p.wait(), got
    if how in ("file", "limit"):
        out = os.path.join(os.path.dirname(d), "out")
        n = scn["limit"]
        with open(out, "wb") as f:
            status = start(f, n if how == "limit" else None).wait()
        with open(out, "rb") as f:
            got = f.read()
        os.unlink(out)
        return status, got
    p = start(subprocess.PIPE)
    got = p.communicate()[0]
    return p.returncode, got


def run(scn):
    res = Result()
    base = scratch()
    d = os.path.join(base, "work")
    for x in ("sub", "~")[:1 + (scn["name"] == "~/x.lnk")]:
        os.makedirs(os.path.join(d, x), exist_ok=True)
    link = M.build(scn["spec"])
    data = disk.apply(link.data, scn["faults"])
    path = scn["name"]
    there = os.getcwd()
    os.chdir(d)
    try:
        if scn["kind"] == "directory":
            os.mkdir(path)
        elif scn["kind"] != "missing":
            with open(path if scn["kind"] != "link" else "sub/real", "wb") as f:
                f.write(data)
            if scn["kind"] == "link":
                os.symlink(os.path.abspath("sub/real"), path)
            os.utime(path, ns=(1_600_000_000_123_456_789, 1_500_000_000_987_654_321))
        if scn["name"] in ODD:  # what the name could be mistaken for
            with open("a.lnk", "wb") as f:
                f.write(DECOY)
        before = snapshot()
        if "process" in scn:
            status, got = process(scn, path, data)
            res.faults["file: read from a pipe"] += bool(scn.get("stdin"))
            left, failed, disturbed, harmed, v, err = [], False, scn["process"] in NOWHERE + ["limit"], False, None, ""
            res.faults["process: " + scn["process"]] += 1
            for n in scn.get("without", []):
                res.faults["process: descriptor %d closed" % n] += 1
            cfg = {"encoding": "utf-8", "errors": "strict", "newline": "\n"}
        else:
            status, got, left, failed, disturbed, harmed, v, err = simulate(scn, path, res)
            cfg = scn["out"]
        after = snapshot()
        why = host.show_exc(v) if v is not None else ""
        where = "%s on %s file" % (scn["opts"], scn["kind"])
        absent = scn["kind"] in ("missing", "directory")
        usage = any(o in NONSENSE for o in scn["opts"])
        want, header = (None, False) if absent else expectation(data, scn)
        if after != before:
            res.bad("file-changed", "%s: the directory changed from %s to %s" % (where, before, after))
        if left:
            res.bad("left-open", "%s: the input file was not closed (%s)" % (where, why))
        if harmed:
            res.bad("harm", "%s: standard output was replaced" % where)
        # argparse itself prints to standard output when it should print to a standard error that is closed.
        told = usage and 2 in scn.get("without", [])
        if (failed or absent or not header or usage) and (status == 0 or got and not told):
            res.bad("pretended", "%s: status %s and %d bytes printed, but the file could not be read (%s)" % (
                where, status, len(got or b""), why))
        elif status == 0 and want is None:
            res.bad("pretended", "%s: status 0, but the library cannot report this file" % where)
        elif want is not None and not usage:
            full, able = stream.encoded(want, cfg)
            if status == 0 and not able:
                res.bad("pretended", "%s: status 0, but the report cannot be encoded as %s" % (where, cfg["encoding"]))
            elif status == 0 and (got is None and full or got is not None and got != full):
                res.bad("pretended", "%s: status 0, but %s of %d bytes arrived%s" % (
                    where, "not all" if got is None else len(got), len(full),
                    "" if not got or full.startswith(got) else ", and they are not those of the report"))
            elif got and not full.startswith(got):
                res.bad("garbled", "%s: what arrived is no prefix of the report" % where)
            elif status != 0 and able and not disturbed:
                res.bad("failed", "%s: status %s (%s), although nothing failed\n%s" % (where, status, why, err[-500:]))
            if got and able and status == 0 and data == link.data:
                if parse(scn["opts"])[1] == (link.cp or "cp1252"):
                    exp = {True: link.expected, False: M.short_of(link.expected)}
                    p = C.compare(op_of(scn["opts"]), want, exp)
                    if p:
                        res.bad("differs-from-model", "%s: %s" % (where, p))
    finally:
        os.chdir(there)
        clean(d)
    res.counts["status %s" % status] += 1
    res.key = (scn["opts"], scn["kind"], sorted(res.faults), status, len(got or b"").bit_length())
    return res


def snapshot():
    out = []
    for root, dirs, files in os.walk("."):
        for f in sorted(files):
            p = os.path.join(root, f)
            s = os.stat(p)
            with io.FileIO(p) as h:
                out.append((p, s.st_size, s.st_mtime_ns, s.st_mode, h.readall()))
        out += [(root, x) for x in sorted(dirs)]
    return sorted(out, key=repr)


def clean(d):
    assert os.path.basename(d) == "work" and "lnk-c14-" in d
    for root, dirs, files in os.walk(d, topdown=False):
        for f in files:
            os.unlink(os.path.join(root, f))
        for x in dirs:
            os.rmdir(os.path.join(root, x))


def valid(scn):
    if scn["kind"] not in FILES or scn["name"] not in NAMES + ODD or not G.valid_spec(scn["spec"]):
        return False
    if not all(type(o) is str for o in scn["opts"]) or parse(scn["opts"]) is None:
        return False
    if "process" in scn:
        return scn["process"] in OUTS and type(scn["limit"]) is int and scn["limit"] >= 0 and \
            set(scn.get("without", [])) <= ({2} if scn["stdin"] else {0, 2})
    return stream.valid_config(scn["out"]) and stream.valid_plan(scn["writes"], not scn["out"]["buffer"]) and \
        scn.get("open", "EIO") in OPENS and type(scn.get("interrupt", 1)) is int and scn.get("interrupt", 1) >= 1 and \
        all(x == "eintr" or (type(x) is int and x > 0) or (x[0] == "delay" and len(x) == 2) or
            (x[0] == "fail" and x[1] in stream.READ_FAULTS) for x in scn["reads"])


def describe(scn):
    out = ["lnkparse %s %r, a %s file" % (" ".join(scn["opts"]), scn["name"], scn["kind"])]
    if "process" in scn:
        return out + ["real process, standard output: %s %s" % (scn["process"], scn["limit"] if scn["process"] == "limit" else ""),
                      "closed descriptors: %s" % scn.get("without", [])]
    if "open" in scn:
        out.append("open fails: " + scn["open"])
    out.append("reads: %s" % scn["reads"])
    out.append("standard output %s, writes: %s" % (scn["out"], scn["writes"]))
    if "interrupt" in scn:
        out.append("KeyboardInterrupt at line event %d" % scn["interrupt"])
    return out
