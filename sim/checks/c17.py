"""C17: reports depend only on the link's bytes and the options given."""
import calendar
import contextlib
import ctypes
import decimal
import io
import json
import locale
import os
import subprocess
import sys
import tempfile
import time

from sim import conc, curious, disk, gen as G, host, model as M, outcome, sched, stream
from sim.checks import common as C
from sim.engine import ROOT, Result

ID = "C17"
LEVEL = "exploration"
COLD = True
RUNS = {"quick": 8000, "thorough": 90000}
RULE = ("seeded links (a quarter damaged) are opened and reported in a host with a seeded clock (frozen, skewed, jumping at every "
        "reading), time zone (with stored times close to its changes), locale, environment, directory (also a deleted one) and encoding of standard output, which also change "
        "at seeded lines of library code; 20% of the runs are fresh interpreters with seeded hash seed, -O/-OO/-X/-b flags, "
        "warning filters and environment; every outcome has to equal that in a plain host and, undamaged, the model; "
        "non-trivial: at least one condition differs from the plain host")
MEASURE = "distinct (host conditions, disturbed functions, reports) tuples"
REAL = C.REAL + ["interpreter start-up (process runs)", "C library locales and time zones"]
STUB = ["the clock (preloaded clock_gettime, gettimeofday, time)"]
ASSUME = ["one interpreter version (the installed one)"]
ZONES = ["UTC", "Asia/Kathmandu", "Pacific/Kiritimati", "America/St_Johns", "Pacific/Niue", "XYZ+13:37", "garbage", "", ":/nonexistent",
         "Europe/Prague", "EST5EDT,M3.2.0,M11.1.0"]
LOCALES = ["C", "C.utf8", "POSIX", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.EUC-JP", "fr_FR.ISO-8859-1", "fa_IR.UTF-8", "cs_CZ.ISO-8859-2",
           "ru_RU.CP1251", "zh_CN.GBK"]
# What time.time() itself can return: up to 2262.
BASES = [0, 1, -1, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 33, -(1 << 33), 1700000000, 951782400, 4102444800, 9200000000, -9200000000,
         1709164800, 946684799, -62135596800 // 10]
STEPS = [0, 1, 10**9, 86400 * 10**9, -86400 * 10**9, 366 * 86400 * 10**9, -3600 * 10**9]
ENV = {"LANG": LOCALES, "LC_ALL": LOCALES, "LC_TIME": LOCALES, "LC_NUMERIC": LOCALES, "LANGUAGE": ["de", "tr:en", ""], "HOME": ["/nonexistent", "/"],
       "COLUMNS": ["1", "20", "400"], "TERM": ["dumb", "xterm"], "NO_COLOR": ["1"], "FORCE_COLOR": ["1"], "USER": ["nobody", ""],
       "PYTHONIOENCODING": ["ascii", "utf-16", "cp1252:replace", "latin-1"], "TZ": ZONES, "DEBUG": ["1"], "SOURCE_DATE_EPOCH": ["0"],
       "PWD": ["/nonexistent"], "TMPDIR": ["/nonexistent"], "HOSTNAME": ["x"], "PYTHONUTF8": ["0", "1"], "LOGNAME": ["\u017e"]}
FLAGS = [["-O"], ["-OO"], ["-X", "utf8=0"], ["-X", "utf8=1"], ["-X", "dev"], ["-b"], ["-W", "ignore"], ["-W", "always"], ["-W", "once"],
         ["-W", "default"], ["-X", "frozen_modules=off"], ["-u"], ["-X", "int_max_str_digits=0"], ["-s"], ["-q"]]


DST = {"EST5EDT,M3.2.0,M11.1.0": (5, [(3, 2), (11, 1)]), "Europe/Prague": (0, [(3, -1), (10, -1)])}


def change(rng, zone):
    """Ticks close to a change of daylight saving time in the zone."""
    hour, days = DST[zone]
    y, (m, k) = rng.randrange(1997, 2037), rng.choice(days)
    days = [d for d in range(1, calendar.monthrange(y, m)[1] + 1) if calendar.weekday(y, m, d) == 6]
    t = calendar.timegm((y, m, days[k - 1] if k > 0 else days[k], hour, 0, 0)) + rng.randrange(-7200, 10800)
    return 116444736000000000 + t * 10_000_000 + rng.choice([0, 5_000_000])


def job(rng, k, zone=None):
    s = G.gen_spec(rng, big=0.01, small=rng.random() < 0.9)
    if zone in DST:
        for f in rng.sample(["ctime", "atime", "wtime"], 2):
            s["header"][f] = change(rng, zone)
    x = M.build(s)
    if rng.random() < 0.05:
        s = G.dense(rng, s)
        x = M.build(s)
    ops = [rng.choice(["text", "text_all"]) if rng.random() < 0.06 else rng.choice(outcome.OPS) for _ in range(k)]
    faults = [disk.overwrite(rng, x, 76)] if rng.random() < 0.25 else [disk.odd(rng, x)] if rng.random() < 0.1 else []
    if rng.random() < 0.08:  # no link
        faults = [rng.choice([["set", rng.randrange(20), rng.randrange(256)], ["le", 0, 4, rng.choice([0, 1, 75, 77, rng.getrandbits(32)])],
                              ["cut", rng.choice([0, 3, 75, rng.randrange(76)])]])]
    return {"spec": s, "faults": faults, "terminal": rng.random() < 0.8, "ops": ops,
            "default": s["cp"] == "cp1252" and rng.random() < 0.5}


def clock(rng):
    base = rng.choice(BASES) if rng.random() < 0.6 else rng.randrange(-9 * 10**9, 9 * 10**9)
    return [rng.choice([1, 1, 3]), base, rng.choice(STEPS)]


def act(rng):
    k = rng.choice(["tz", "locale", "clock", "clock", "cwd", "env", "decimal", "answer", "answer", "platform", "argv", "logging", "gc"])
    if k == "answer":
        return [k, rng.choice(curious.ANSWERS) if rng.random() < 0.6 else rng.randrange(30)]
    if k == "platform":
        return [k, rng.choice(sorted(curious.PLATFORMS))]
    if k == "argv":
        return [k, rng.randrange(len(curious.ARGV))]
    if k in ("logging", "gc"):
        return [k, rng.choice([0, 1, 10])]
    if k == "tz":
        return [k, rng.choice(ZONES)]
    if k == "locale":
        return [k, rng.choice(LOCALES)]
    if k == "clock":
        return [k] + clock(rng)
    if k == "cwd":
        return [k, rng.choice(["/", "deleted", "scratch"])]
    if k == "env":
        e = rng.choice(sorted(ENV))
        return [k, e, rng.choice(ENV[e] + [None])]
    return [k, rng.choice([1, 3, 28])]


def gen(rng, tier):
    if rng.random() < 0.2:
        env = {}
        for e in sorted(ENV):
            if rng.random() < 0.25:
                env[e] = rng.choice(ENV[e])
        if rng.random() < 0.2:
            env["TZ"] = rng.choice(sorted(DST))
        jobs = [job(rng, rng.choice([1, 2, 4]), env.get("TZ")) for _ in range(rng.choice([1, 4, 8, 16]))]
        flags = [f for f in FLAGS if rng.random() < 0.12]
        return {"jobs": jobs, "process": {"env": env, "flags": flags, "clock": clock(rng) if rng.random() < 0.6 else None,
                                          "acts": [a for a in (act(rng) for _ in range(rng.choice([0, 1, 2]))) if a[0] in curious.ACTS],
                                          "bare": rng.random() < 0.3, "hash": rng.randrange(1 << 32) if rng.random() < 0.9 else "random",
                                          "cwd": rng.choice(["/", "deleted", "scratch"])}}
    start = [act(rng) for _ in range(rng.choice([1, 2, 3, 5]))]
    if rng.random() < 0.25:
        start.append(["tz", rng.choice(sorted(DST))])
    zone = [a[1] for a in start if a[0] == "tz"][-1:] or [None]
    jobs = [job(rng, rng.choice([1, 2, 4]), zone[0]) for _ in range(rng.choice([1, 1, 2]))]
    during = [[rng.choice([1, 2, 5, 20, 100, rng.randrange(1, 1500)]), act(rng)] for _ in range(rng.choice([0, 1, 2, 4]))]
    return {"jobs": jobs, "start": start, "during": during, "out": dict(stream.sink_config(rng)), "tty": rng.random() < 0.5}


# Compiled modules of the fresh interpreters, for the duration of this sweep only: the code does not change meanwhile.
CACHE = tempfile.mkdtemp(prefix="lnk-c17-cache-")



class Terminal(io.TextIOWrapper):
    def isatty(self):
        return True


LIB = ctypes.CDLL(None)


def shim():
    try:
        return LIB.simclock
    except (OSError, AttributeError):
        return None


def texts(x):
    """The strings of a report."""
    if isinstance(x, str):
        return [x] if x and "\0" not in x and not any("\ud800" <= c <= "\udfff" for c in x) else []
    return [t for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else []) for t in texts(y)]


def settle(acts, links):
    """Answers which are strings of the links themselves."""
    out = []
    for a in acts:
        if a[0] == "answer" and type(a[1]) is int:
            t = sorted({t for m in links for t in texts(m.expected)})
            a = ["answer", t[a[1] * 7919 % len(t)] if t else "1"]
        out.append(a)
    return out


def go(a, res=None):
    """Apply one host condition (in a process of its own)."""
    k = a[0]
    if k in curious.ACTS:
        curious.act(sched.HOME, a)
    elif k == "tz":
        os.environ["TZ"] = a[1]
        time.tzset()
    elif k == "locale":
        try:
            locale.setlocale(locale.LC_ALL, a[1])
        except locale.Error:
            return
    elif k == "clock":
        f = shim()
        if f is None:
            return
        f(ctypes.c_int(a[1]), ctypes.c_longlong(a[2]), ctypes.c_longlong(a[3]))
    elif k == "cwd":
        move(a[1])
    elif k == "env":
        if a[2] is None:
            os.environ.pop(a[1], None)
        else:
            os.environ[a[1]] = a[2]
    elif k == "decimal":
        decimal.getcontext().prec = a[1]
    if res is not None:
        res.faults["host: " + k] += 1


def move(where):
    if where == "/":
        os.chdir("/")
        return
    d = tempfile.mkdtemp(prefix="lnk-c17-")
    os.chdir(d)
    # An empty directory of ours: also the scratch one may go while we are in it.
    os.rmdir(d) if where == "deleted" else made.append(d)


made = []


def inside(scn, data, links, res):
    """The outcomes in this process after and while its conditions change."""
    cfg = scn["out"]
    rows = []
    where = []
    try:
        for a in settle(scn["start"], links):
            go(a, res)
        late = zip((n for n, _ in scn["during"]), settle([a for _, a in scn["during"]], links))
        series = sched.Series({n: (lambda a=a: go(a, res)) for n, a in late})
        sink = stream.Sink([])
        out = stream.stdout(sink, cfg)
        if scn["tty"]:
            out = Terminal(out.detach(), encoding=cfg["encoding"], errors=cfg["errors"], newline=cfg["newline"],
                           line_buffering=cfg["line"], write_through=not cfg["buffer"])

        class Text:
            def __init__(self):
                self.at = 0

            def getvalue(self):
                out.flush()
                return bytes(sink.got[self.at:])

            def seek(self, n):
                self.at = len(sink.got)

            def truncate(self):
                pass

        text = Text()
        with contextlib.redirect_stdout(out), series if scn["during"] else contextlib.nullcontext():
            for j, (b, cp) in zip(scn["jobs"], data):
                rows.append(outcome.all_of(host.LnkFile, b, cp, j["terminal"], j["ops"], text))
        where = series.where
    finally:
        curious.platform("linux")
        f = shim()
        if f:
            res.counts["clock readings"] += ctypes.c_longlong.in_dll(LIB, "simclock_reads").value
            f(ctypes.c_int(0), ctypes.c_longlong(0), ctypes.c_longlong(0))
        os.chdir("/")
        for d in made:
            os.rmdir(d)
    return rows, where


def fresh(scn, data, links):
    """The outcomes in a new interpreter."""
    p = scn["process"]
    env = {} if p["bare"] else dict(os.environ)
    for k in ("LC_ALL", "LANG", "TZ"):
        env.pop(k, None)
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    for k in ("LD_PRELOAD", "LOCPATH"):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(p["env"])
    env.update(PYTHONPATH=os.environ.get("PYTHONPATH", ""), PYTHONPYCACHEPREFIX=CACHE, PYTHONHASHSEED=str(p["hash"]))
    if p["clock"]:
        env["SIMCLOCK"] = ",".join(str(x) for x in p["clock"])
    jobs = [{"data": b.hex(), "cp": cp, "terminal": j["terminal"], "ops": j["ops"]} for j, (b, cp) in zip(scn["jobs"], data)]
    argv = [sys.executable] + sum(p["flags"], []) + [os.path.join(ROOT, "sim", "probe.py")]
    d = tempfile.mkdtemp(prefix="lnk-c17-")
    try:
        r = subprocess.run(argv, input=json.dumps({"jobs": jobs, "acts": settle(p["acts"], links)}).encode("ascii"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                           cwd="/" if p["cwd"] == "/" else d, preexec_fn=(lambda: os.rmdir(d)) if p["cwd"] == "deleted" else None)
    finally:
        if os.path.isdir(d):
            os.rmdir(d)
    if r.returncode:
        raise RuntimeError("the probe ended with status %d: %s" % (r.returncode, r.stderr[-600:].decode("utf-8", "replace")))
    return json.loads(r.stdout)


def plain(scn, data):
    rows = []
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        for j, (b, cp) in zip(scn["jobs"], data):
            rows.append(outcome.all_of(host.LnkFile, b, cp, j["terminal"], j["ops"], text))
    return rows


def run(scn):
    res = Result()
    links = [M.build(j["spec"]) for j in scn["jobs"]]
    data = [(disk.apply(m.data, j["faults"]), None if j["default"] else m.cp) for m, j in zip(links, scn["jobs"])]
    where = []
    with conc.quiet():
        want = conc.alone(lambda: plain(scn, data))
        if "process" in scn:
            got = fresh(scn, data, links)
            p = scn["process"]
            res.faults["process: hash seed"] += 1
            for f in p["flags"]:
                res.faults["process: " + " ".join(f)] += 1
            for a in p["acts"]:
                res.faults["process: " + a[0]] += 1
            for e in p["env"]:
                res.faults["process: environment"] += 1
            if p["clock"]:
                res.faults["process: clock"] += 1
            conditions = [sorted(p["env"].items()), p["flags"], p["clock"], p["cwd"], p["bare"], p["acts"]]
        else:
            got, where = inside(scn, data, links, res)
            conditions = [scn["start"], scn["out"]]
        for i, (g, w, j) in enumerate(zip(got, want, scn["jobs"])):
            if w and w[0] == "refused" or g and g[0] == "refused":
                if g != w:
                    res.bad("differs", "link %d: %s instead of %s" % (i, g[:2], w[:2]))
                continue
            for op, a, b in zip(j["ops"], g, w):
                if "process" not in scn:
                    full, able = stream.encoded(b[2], scn["out"])
                    if not able:
                        if a[0] == "ok":
                            res.bad("differs", "%s printed what cannot be encoded" % op)
                        break
                    b = [b[0], b[1], full]
                    if full == b"" and a[2] == b"":
                        pass
                if a != b:
                    k = 2 if a[:2] == b[:2] else 1
                    res.bad("differs", "link %d, %s under %s: %s" % (i, op, json.dumps(conditions)[:300], difference(b[k], a[k])))
            if data[i][0] == links[i].data:
                m = links[i]
                exp = {True: m.expected, False: M.short_of(m.expected)}
                for op, b in zip(j["ops"], w):
                    if host.printed(op):
                        pr = C.compare(op, b[2], exp)
                        if pr:
                            res.bad("differs-from-model", "link %d, %s: %s" % (i, op, pr))
    res.key = (conditions, where, [j["ops"] for j in scn["jobs"]])
    return res


def difference(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "...%r became ...%r" % (a[max(0, n - 40):n + 60], b[max(0, n - 40):n + 60])


def valid_act(a):
    k = a[0]
    if k in ("tz", "locale", "cwd"):
        return len(a) == 2 and a[1] in {"tz": ZONES, "locale": LOCALES, "cwd": ["/", "deleted", "scratch"]}[k]
    if k == "clock":
        return valid_clock(a[1:])
    if k == "env":
        return len(a) == 3 and a[1] in ENV and (a[2] is None or a[2] in ENV[a[1]])
    if k in curious.ACTS:
        return curious.valid(a)
    return k == "decimal" and len(a) == 2 and a[1] in (1, 3, 28)


def valid_clock(c):
    return len(c) == 3 and c[0] in (0, 1, 3) and all(type(x) is int for x in c)


def valid(scn):
    for j in scn["jobs"]:
        if j["default"] and j["spec"]["cp"] != "cp1252":
            return False
        if not G.valid_spec(j["spec"]) or not set(j["ops"]) <= set(outcome.OPS + ["text", "text_all"]):
            return False
    if "process" in scn:
        p = scn["process"]
        return all(k in ENV and v in ENV[k] for k, v in p["env"].items()) and all(f in FLAGS for f in p["flags"]) and \
            (p["clock"] is None or valid_clock(p["clock"])) and all(curious.valid(a) for a in p["acts"]) and type(p["bare"]) is bool and type(p["hash"]) is int and \
            0 <= p["hash"] < 1 << 32 and p["cwd"] in ("/", "deleted", "scratch")
    return all(valid_act(a) for a in scn["start"]) and all(type(n) is int and n > 0 and valid_act(a) for n, a in scn["during"]) and \
        stream.valid_config(scn["out"]) and type(scn["tty"]) is bool


def describe(scn):
    out = ["link %d: %d bytes%s, %s" % (i, len(M.build(j["spec"]).data), ", damaged" if j["faults"] else "", j["ops"])
           for i, j in enumerate(scn["jobs"])]
    if "process" in scn:
        return out + ["fresh interpreter: %s" % scn["process"]]
    return out + ["host: %s, standard output %s%s" % (scn["start"], scn["out"], " (a terminal)" if scn["tty"] else "")] + \
        ["at line event %d: %s" % (n, a) for n, a in scn["during"]]
