"""C21: a link that has been released leaves nothing behind."""
import array
import contextlib
import ctypes
import gc
import io
import os
import random
import re
import sys
import threading
import warnings
import weakref

from sim import disk, gen as G, host, interrupt as I, model as M, stream
from sim.checks import common as C
from sim.engine import Result

ID = "C21"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 40000}
RULE = ("rounds of links of one make (same structure, other texts, times, identifiers or damage) live the same life: opened from "
        "bytes, buffers or a source (which may fail), reported, printed (perhaps to a failing output), interrupted or refused, and "
        "released; what the process holds after each round (objects, memory blocks, memory, sources, descriptors, threads) must not "
        "keep growing with the number of links (or, in a quarter of the runs, of operations on one link): a growth seen in three rounds running is followed until it ends or 1500 links have "
        "lived; non-trivial: all rounds were lived")
MEASURE = "distinct (kind of source, operations, interruption kinds, damage kinds, how many links were refused) tuples"
REAL = C.REAL
STUB = ["the writer of links (reference model)", "the device under the source, the standard output (simulated)",
        "the origin of interruptions"]
ASSUME = ["caches that stop growing before some hundred entries are allowed",
          "the host ignores warnings or has them all reported: the registry of the default filter is the interpreter's own"]
ROUND = 25
END = 1500
LIMIT = 150.0
SOURCES = ["bytes", "bytes", "bytearray", "memoryview", "raw", "buffered", "duck", "bytesio"]
OPS = host.REPORTS + host.ACCESS
VARY = ["none", "values", "values", "values", "bytes", "place", "place", "place", "fresh"]


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
                                               "fordblks", "keepcost")]


try:
    _mallinfo = ctypes.CDLL(None).mallinfo2
    _mallinfo.restype = MallInfo
except AttributeError:  # another C library
    def _mallinfo():
        return MallInfo()


WHAT = ["memory blocks", "objects", "bytes", "sources", "descriptors", "threads"]


def held(alive, into):
    """What the process holds on to, in the order of WHAT; nothing is allocated for it that stays."""
    for _ in range(3):
        gc.collect()
    m = _mallinfo()
    n = len(into)
    into.extend([0] * len(WHAT))
    into[n] = sys.getallocatedblocks()
    into[n + 1] = len(gc.get_objects())
    into[n + 2] = m.uordblks + m.hblkhd
    into[n + 3] = sum(r() is not None for r in alive)
    into[n + 4] = len(os.listdir("/proc/self/fd"))
    into[n + 5] = threading.active_count()


# Growth per link that counts.
LEAST = [0.4, 0.4, 200, 0.4, 0.2, 0.2]


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0, small=rng.random() < 0.85)
    link = M.build(spec)
    r = rng.random()
    faults = [] if r < 0.45 else [disk.anything(rng, link, 76) for _ in range(rng.choice([1, 2]))] if r < 0.85 else \
        [disk.anything(rng, link, 0)] if r < 0.97 else [["cut", rng.randrange(76)]]
    life = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        life.append([rng.choice(["text", "text_all"]) if rng.random() < 0.06 else
                     rng.choice(["dict", "dict_all", "dict_all", "json", "json_all", "target", "target_json"] + host.ACCESS),
                     I.plan(rng) if rng.random() < 0.3 else None, rng.choice(stream.WRITE_FAULTS) if rng.random() < 0.15 else None])
    kind = rng.choice(SOURCES)
    fail = rng.choice(stream.READ_FAULTS) if kind in ("raw", "buffered", "duck") and rng.random() < 0.4 else None
    return {"spec": spec, "faults": faults, "vary": rng.choice(VARY), "source": kind, "fail": fail,
            "opened": I.plan(rng) if rng.random() < 0.25 else None, "life": life, "terminal": rng.random() < 0.8,
            "warn": rng.choice(["ignore", "always", "error"]) if rng.random() < 0.5 else "ignore", "salt": rng.getrandbits(30),
            "place": disk.position(rng, link, 4), "width": rng.choice([2, 4, 8, 16]), "keep": rng.random() < 0.2, "one": bool(life) and rng.random() < 0.25}


WORDS = re.compile(rb"(?:[A-Za-z0-9]\x00){3,}|[A-Za-z0-9]{4,}")
ALPHABET = b"abcdefghijklmnopqrstuvwxyz0123456789"


def variant(data, i, scn):
    """The i-th link of the make."""
    rng = random.Random(scn["salt"] * 1000003 + i)
    b = bytearray(data)
    if scn["vary"] == "none" or len(data) < 76:
        return data
    for at in (28, 36, 44):
        b[at:at + 5] = rng.randbytes(5)
    b[52:56] = rng.randbytes(4)
    for m in WORDS.finditer(data, 76):
        step = 2 if data[m.start() + 1] == 0 else 1
        for at in range(m.start(), m.end(), step):
            b[at] = ALPHABET[rng.randrange(36)]
    at = scn["place"]
    if scn["vary"] == "place" and at < len(b):
        n = min(scn["width"], len(b) - at)
        b[at:at + n] = rng.randbytes(n)
    if scn["vary"] == "bytes" and len(b) > 76:
        for _ in range(3):
            b[rng.randrange(76, len(b))] = rng.randrange(256)
    return bytes(b)


def live(data, cp, scn, alive, tally, now=None):
    """One link, from its source to its release, or some more of the life of the link `now`."""
    def source():
        k = scn["source"]
        if k == "bytes":
            return None, data
        if k == "bytearray":
            return None, bytearray(data)
        if k == "memoryview":
            return None, memoryview(bytearray(data))
        if k == "bytesio":
            return io.BytesIO(data), None
        src = stream.Source(data, [7, ["fail", scn["fail"]]] if scn["fail"] else [7])
        h = src if k == "raw" else io.BufferedReader(src) if k == "buffered" else stream.ReadOnly(src)
        alive.append(weakref.ref(src))
        return h, None

    def opener():
        f, d = source()
        return host.open_link(d, cp, scn["terminal"], f) if f is not None else host.open_link(d, cp, scn["terminal"])

    def there(op, lnk, fault):
        if not host.printed(op):
            return host.call(lnk, op)
        with contextlib.redirect_stdout(stream.TextSink([1 << 30, ["fail", fault]]) if fault else io.StringIO()):
            return host.call(lnk, op)

    if now is not None:
        lnk = now
    elif scn["opened"]:
        out = I.perform(opener, scn["opened"], opener)
        tally["interrupted: " + scn["opened"][0]] += out.sent is not None
        st, lnk = out.st, out.value
    else:
        st, lnk = host.attempt(opener)
    del opener
    if now is None and st == "err":
        tally["refused or failed"] += 1
        return None
    got = None
    for op, p, fault in scn["life"]:
        def do(op=op, fault=fault):
            return there(op, lnk, fault)

        if p:
            out = I.perform(do, p, do)
            got = out.value
            tally["interrupted: " + p[0]] += out.sent is not None
        else:
            st, got = host.attempt(do)
        tally["output fails"] += bool(fault) and host.printed(op)
    return lnk


class Tally(dict):
    def __missing__(self, k):
        return 0


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    base = disk.apply(link.data, scn["faults"])
    tally, alive = Tally(), []
    made = [0]
    def lived(n):
        last = None
        for _ in range(n):
            if scn["vary"] == "fresh":
                other = M.build(G.gen_spec(random.Random(scn["salt"] * 1000003 + made[0]), big=0, small=True))
                data, cp = disk.apply(other.data, []), other.cp
            else:
                data, cp = variant(base, made[0], scn), link.cp
            made[0] += 1
            now = live(data, cp, scn, alive, tally, one)
            last = (last, now)[1] if scn["keep"] else None  # the next link is made before the last is released
            del now, data

    rounds = array.array("q", [0] * (len(WHAT) * (END // ROUND + 4)))
    del rounds[:]
    with warnings.catch_warnings():
        warnings.simplefilter(scn["warn"])
        warnings.showwarning = lambda *a, **kw: None
        one = live(base, link.cp, dict(scn, life=[], opened=None), alive, tally) if scn["one"] else None
        lived(ROUND)
        held(alive, rounds)
        which = [True] * len(WHAT)
        while any(which) and made[0] < END:
            lived(ROUND)
            if made[0] == 2 * ROUND:
                counted = dict(tally)  # of the rounds every execution of this run has
            alive[:] = [r for r in alive if r() is not None]
            held(alive, rounds)
            for j, least in enumerate(LEAST):
                if rounds[j - len(WHAT)] - rounds[j - 2 * len(WHAT)] < least * ROUND:
                    which[j] = False
    if any(which):
        j = which.index(True)
        res.bad("held", "%s held by the process after %d, %d and %d %s: %d, %d, %d" % (
            (WHAT[j], ROUND, made[0] // ROUND // 2 * ROUND, made[0],
             "rounds of operations on one link" if one is not None else "links of one make") +
            tuple(rounds[k * len(WHAT) + j] for k in (0, made[0] // ROUND // 2 - 1, made[0] // ROUND - 1))))
    for k, v in counted.items():
        if v:
            res.faults[k] += v
    for f in scn["faults"]:
        res.faults["stored bytes: " + f[0]] += 1
    res.key = (scn["source"], [(o, p and p[:1] + p[2:3], f) for o, p, f in scn["life"]], scn["opened"] and scn["opened"][0], scn["fail"],
               scn["vary"], [f[0] for f in scn["faults"]])
    res.nontrivial = True
    return res


def valid(scn):
    return G.valid_spec(scn["spec"]) and scn["source"] in SOURCES and scn["vary"] in VARY and type(scn["salt"]) is int and type(scn["place"]) is int and \
        scn["place"] >= 4 and scn["width"] in (2, 4, 8, 16) and \
        (scn["opened"] is None or I.valid(scn["opened"])) and (scn["fail"] is None or scn["fail"] in stream.READ_FAULTS) and \
        scn["warn"] in ("ignore", "always", "error") and type(scn["keep"]) is bool and type(scn["one"]) is bool and \
        all(op in OPS and (p is None or I.valid(p)) and (f is None or f in stream.WRITE_FAULTS) for op, p, f in scn["life"])


def describe(scn):
    out = ["%s of links, each opened from %s%s%s" % (
        {"none": "equal copies", "values": "makes with other values", "bytes": "makes with other values and damage", "place": "makes with other values and damage at one place",
         "fresh": "unlike makes"}[scn["vary"]], scn["source"], ", which fails with %s" % scn["fail"] if scn["fail"] else "",
        ", opening interrupted: %s" % scn["opened"] if scn["opened"] else "")]
    for op, p, f in scn["life"]:
        out.append(op + (" interrupted: %s" % p if p else "") + (", the output fails with %s" % f if f and host.printed(op) else ""))
    return out + (["all on one link"] if scn["one"] else ["released"])
