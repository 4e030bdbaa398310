"""C18: parsing leaves the host process exactly as it found it."""
import decimal
import gc
import io
import json
import locale
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import warnings

import yaml

from sim import disk, gen as G, host, interrupt as I, model as M, state, stream
from sim.checks import common as C
from sim.engine import ROOT, Result

ID = "C18"
LEVEL = "exploration"
COLD = True
RUNS = {"quick": 9000, "thorough": 110000}
RULE = ("in a host with seeded settings (filters, limits, locale, zone, directory, handlers, collector, streams ...) a seeded link (60% "
        "damaged, cut or refused) is opened from bytes or a simulated source and reported 1..4 times, each step undisturbed, interrupted "
        "(see C12), with failing reads or failing writes; some 70 kinds of process-wide state are compared before and after each step, "
        "audited system calls and descriptors 1 and 2 are watched; 2% of the runs import and use the library in a fresh interpreter; "
        "non-trivial: always")
MEASURE = "distinct (steps, function interrupted or stream fault, settings) tuples"
REAL = C.REAL + ["the process (signal handlers, descriptors, locale, environment ...)"]
STUB = ["devices under sources and standard output", "the origin of interruptions"]
ASSUME = ["imports the interpreter makes on demand (codecs) and its own caches are not state of the host"]
OPS = ["dict", "dict_all", "json", "json_all", "target", "target_json"] + host.ACCESS + ["partial"]
HOST = {"filters": ["error-other", "ignore", "always", "once", "module", "empty", "many"], "limit": [900, 1000, 1777, 5000],
        "locale": ["C", "C.utf8", "POSIX"], "tz": ["UTC", "Asia/Kathmandu", "XYZ+13:37"], "gc": [True, False], "cwd": ["/", "scratch"],
        "signal": [True, False], "decimal": [3, 28], "switch": [0.005, 0.1], "env": [True, False], "umask": [0, 0o77],
        "threshold": [10, 700], "hooks": [True, False], "digits": [0, 5000]}


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.01, small=rng.random() < 0.85)
    link = M.build(spec)
    r = rng.random()
    faults = [disk.anything(rng, link, 76) for _ in range(rng.choice([1, 2]))] if r < 0.4 else \
        [disk.anything(rng, link) for _ in range(rng.choice([1, 2, 3]))] if r < 0.52 else [["cut", rng.randrange(76)]] if r < 0.6 else []
    if rng.random() < 0.06:
        faults.append(disk.odd(rng, link))
    if rng.random() < 0.05:
        faults.append(["append", {"n": rng.choice([5000, 70000, 140000, 400000]), "pat": rng.choice(["00", rng.getrandbits(16)])}])
    hostcfg = {k: rng.choice(v) for k, v in HOST.items() if rng.random() < 0.4}
    if rng.random() < 0.02:
        return {"spec": spec, "faults": faults, "import": rng.choice([900, 1000, 1777]), "ops": [rng.choice(["dict_all", "json", "text_all", "target", "flags"])
                                                                                                  for _ in range(rng.choice([1, 3]))]}
    steps = [["open", trouble(rng, ["none", "interrupt", "read", "read-ok"])]]
    for _ in range(rng.choice([1, 2, 4])):
        op = rng.choice(["text", "text_all"]) if rng.random() < 0.06 else rng.choice(OPS)
        steps.append([op, trouble(rng, ["none", "interrupt", "interrupt", "write"] if host.printed(op) else ["none", "interrupt"])])
    return {"spec": spec, "faults": faults, "host": hostcfg, "steps": steps, "terminal": rng.random() < 0.8,
            "out": stream.sink_config(rng)}


def trouble(rng, kinds):
    k = rng.choice(kinds)
    if k == "interrupt":
        return [k, I.plan(rng)]
    if k == "read":
        return [k, stream.chunks(rng, 300, rng.choice([0, 1, 3])) + [["fail", rng.choice(stream.READ_FAULTS)]]]
    if k == "read-ok":
        return [k, stream.chunks(rng, 300, rng.choice([0, 1, 3]))]
    if k == "write":
        return [k, stream.write_plan(rng, 2000, True, 1.0)]
    return [k]


def settle_in(cfg):
    """Set up the host (in a process of its own)."""
    f = cfg.get("filters")
    if f:
        warnings.resetwarnings()
    if f == "error-other":
        warnings.simplefilter("error", DeprecationWarning)
        warnings.simplefilter("always", UserWarning)
    elif f == "many":
        for m in ("a", "b", "LnkParse3"):
            warnings.filterwarnings("default", module=m)
        warnings.filterwarnings("ignore", "Error while")
    elif f and f != "empty":
        warnings.simplefilter(f)
    if "limit" in cfg:
        sys.setrecursionlimit(cfg["limit"])
    if "locale" in cfg:
        locale.setlocale(locale.LC_ALL, cfg["locale"])
    if "tz" in cfg:
        os.environ["TZ"] = cfg["tz"]
        time.tzset()
    if cfg.get("gc") is False:
        gc.disable()
    if "cwd" in cfg:
        os.chdir("/" if cfg["cwd"] == "/" else tempfile.gettempdir())
    if cfg.get("signal"):
        for n in (signal.SIGUSR1, signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGCHLD):
            signal.signal(n, lambda *a: None)
    if "decimal" in cfg:
        decimal.getcontext().prec = cfg["decimal"]
    if "switch" in cfg:
        sys.setswitchinterval(cfg["switch"])
    if cfg.get("env"):
        os.environ["LNK"] = "x"
        os.environ.pop("LC_ALL", None)
    if "umask" in cfg:
        os.umask(cfg["umask"])
    if "threshold" in cfg:
        gc.set_threshold(cfg["threshold"])
    if cfg.get("hooks"):
        sys.excepthook = lambda *a: None
        sys.displayhook = lambda *a: None
    if "digits" in cfg:
        sys.set_int_max_str_digits(cfg["digits"])
    random.seed(7)


def imported(scn, data, cp):
    env = dict(os.environ)
    p = subprocess.run([sys.executable, os.path.join(ROOT, "sim", "import_probe.py")], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=ROOT,
                       input=json.dumps({"data": data.hex(), "cp": cp, "ops": scn["ops"], "limit": scn["import"]}).encode())
    if p.returncode:
        raise RuntimeError("the probe ended with status %d: %s" % (p.returncode, p.stderr[-600:].decode("utf-8", "replace")))
    return json.loads(p.stdout)


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    data = disk.apply(link.data, scn["faults"])
    for f in scn["faults"]:
        res.faults["stored: " + f[0]] += 1
    if "import" in scn:
        for x in imported(scn, data, link.cp):
            res.bad("state", "import and use: " + x)
        res.counts["fresh interpreters"] += 1
        res.key = ("import", scn["ops"], scn["import"])
        return res
    settle_in(scn["host"])
    seen = []
    warnings.showwarning = lambda *a, **k: seen.append(1)
    sink = stream.Sink([])
    out = stream.stdout(sink, scn["out"])
    err = io.StringIO()
    reached = []
    keep = []
    real = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        with state.Watch() as w:
            steps(scn, data, link, res, w, sink, out, reached, keep)
        for x in w.written:
            res.bad("wrote", x)
        if err.getvalue():
            res.bad("wrote", "standard error received %r" % err.getvalue()[:300])
    finally:
        sys.stdout, sys.stderr = real
    res.key = (reached, sorted(scn["host"].items()))
    res.counts["warnings"] += len(seen)
    return res


def partial(lnk):
    """An iteration left in the middle."""
    its = [iter(lnk.extras)]
    if lnk.targets:
        its.append(iter(lnk.targets))
    for it in its:
        next(it, None)
    return its


def steps(scn, data, link, res, w, sink, out, reached, keep):
    def opened(src=None):
        return host.open_link(data, link.cp, scn["terminal"], src)

    def perform(lnk, op):
        return partial(lnk) if op == "partial" else host.call(lnk, op)

    st, twin = host.attempt(opened)
    twin = twin if st == "ok" else None
    lnk = twin
    # The dry runs of interruptions print too: what arrives is not judged here (see C13).
    for op, t in scn["steps"]:
        if lnk is None and op != "open":
            return
        source = stream.Source(data, t[1]) if t[0] in ("read", "read-ok") else None
        handle = io.BufferedReader(source) if source else None
        if t[0] == "write":
            sink.plan = list(t[1])
        if op == "open":
            fn = dry = (lambda h=handle: opened(h))
        else:
            fn = (lambda op=op, lnk=lnk: perform(lnk, op))
            dry = (lambda op=op: perform(twin, op))
        had = len(sink.got)
        a = state.snapshot(yaml)
        w.on()
        if t[0] == "interrupt":
            o = I.perform(fn, t[1], dry)
            st, v, sent, where = o.st, o.value, o.sent, o.where
        else:
            st, v = host.attempt(fn)
            sent, where = None, None
        wrote = list(w.off())
        b = state.snapshot(yaml, a)
        sink.plan = []
        host.attempt(out.flush)
        if sent is not None:
            res.faults["%s: %s" % (t[1][0], type(sent).__name__)] += 1
        if t[0] == "read" and source.raised:
            res.faults["read: " + t[1][-1][1]] += 1
        if t[0] == "write" and sink.raised:
            res.faults["write: " + t[1][-1][1]] += 1
        sink.raised = []
        reached.append((op, t[0], where, type(v).__name__ if st == "err" else "ok"))
        what = "%s (%s%s)" % (op, t[0], " at " + where if where else "")
        for x in state.changes(a, b):
            res.bad("state", "%s: %s" % (what, x))
        for x in wrote:
            res.bad("wrote", "%s: %s" % (what, x))
        if handle is not None and (handle.closed or source.closed):
            res.bad("state", "%s: the caller's source was closed" % what)
        if not host.printed(op) and len(sink.got) > had:
            res.bad("wrote", "%s: %r on standard output" % (what, bytes(sink.got[had:had + 100])))
        if res.problems:
            return
        if op == "open":
            lnk = v if st == "ok" else twin
        elif st == "ok":
            keep.append(v)


def valid(scn):
    if not G.valid_spec(scn["spec"]):
        return False
    if "import" in scn:
        return scn["import"] in (900, 1000, 1777) and set(scn["ops"]) <= {"dict_all", "json", "text_all", "target", "flags"}
    for op, t in scn["steps"]:
        if op not in OPS + ["open", "text", "text_all"]:
            return False
        k = t[0]
        if k == "interrupt":
            if not I.valid(t[1]):
                return False
        elif k in ("read", "read-ok"):
            if op != "open" or not all(x == "eintr" or (type(x) is int and x > 0) or (x[0] == "delay" and len(x) == 2) or
                                       (x[0] == "fail" and x[1] in stream.READ_FAULTS) for x in t[1]):
                return False
        elif k == "write":
            if op == "open" or not stream.valid_plan(t[1], True):
                return False
        elif k != "none":
            return False
    return all(k in HOST and v in HOST[k] for k, v in scn["host"].items()) and stream.valid_config(scn["out"]) and \
        scn["steps"] and scn["steps"][0][0] == "open"


def describe(scn):
    if "import" in scn:
        return ["import and use in a fresh interpreter: %s" % scn["ops"]]
    return ["host: %s" % scn["host"]] + ["%s, %s" % (op, t) for op, t in scn["steps"]]
