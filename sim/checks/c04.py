"""C04: work and memory stay bounded by file size whatever the damage."""
import time

from sim import disk, gen as G, host, meter, model as M
from sim.checks import common as C
from sim.engine import Result

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 24000, "thorough": 350000}
RULE = ("a seeded link, often followed or overwritten by tiles of hostile size fields (0, 1, 2, 3, 4, 8, near or beyond the end, "
        "huge), is opened and reported under a simulated cost clock (one tick per executed line of Python, bytes copied, in some "
        "runs the memory peak, in 30% instead the bytes requested from the C library, to 300 KB), each bounded by a linear function of the file size; non-trivial: the file is damaged")
MEASURE = "distinct (file size class, ticks per byte class, report, damage kinds) tuples"
REAL = C.REAL
STUB = ["the disk (simulated faults)", "the writer of links (reference model)", "the clock (ticks per executed line)"]
ASSUME = ["work inside C extensions is proportional to the bytes they are given, which are counted where they are copied; "
          "where it is not, it takes over ten times the processor time of the worst file seen"]
LIMIT = 90.0

# Per report: (fixed ticks, ticks per byte).  The worst seen on any damaged file of the thorough sweep is below half of these.
STEPS = {"open": (3000, 30), "dict": (9000, 120), "dict_all": (9000, 120), "json": (12000, 200), "json_all": (12000, 200),
         "text": (500000, 2200), "target": (3000, 30)}
MEMORY = (4_000_000, 1000)
COPY = (50000, 150)
# Bytes requested from the C library (objects above 512 bytes): per report (fixed, per byte).
VOLUME = {"open": (300_000, 500), "dict": (400_000, 800), "dict_all": (400_000, 800), "json": (600_000, 2000),
          "json_all": (600_000, 2000), "target": (300_000, 150)}

# Processor time of this thread: per report (fixed, seconds per byte); ten times the worst seen.
CPU = {"open": (1.5, 20e-6), "dict": (2, 60e-6), "dict_all": (2, 60e-6), "json": (2, 80e-6), "json_all": (2, 80e-6),
       "target": (1, 10e-6)}


def monotone(rng, spec):
    """Long runs of one or two characters in the texts of a link: the worst case of most text processing."""
    def runs(n):
        u = rng.choice([" ", "\t", "\\", "/", ".", "%", "-", "a", "0", "{", "..\\", "% ", "a ", "\\ ", "%a%", '"'])
        s = (u * n)[:n]
        if rng.random() < 0.7:
            s = s[:-2] + rng.choice(["x", "!", "%", " ", "\\"])
        return rng.choice(["", "", "x", "%"]) + s
    n = rng.choice([3000, 20000, 32000, 60000])
    spec = dict(spec, strings=dict(spec["strings"], **{rng.choice(["command_line_arguments", "icon_location"]): runs(n)}))
    where = rng.randrange(4)
    if where == 0:
        spec["targets"] = [{"k": "file", "type": 0x32, "unk": 0, "size": 1, "time": None, "attr": 0, "name": runs(min(n, 30000)), "ext": ""}]
    elif where == 1:
        spec["info"] = {"k": "network", "wide": False, "suffix": runs(n), "pad": "", "net": runs(n), "device": runs(300), "net_wide": False,
                        "nflags": 0, "provider": 0}
    elif where == 2:
        spec["extras"] = [{"k": "shim", "name": runs(n)},
                          {"k": "metadata", "stores": [{"fmt": "00" * 16, "values": [{"t": 0x1F, "v": runs(n), "id": 2}]}]}]
    return spec


def tile(rng):
    """A repeated pattern of hostile framing."""
    k = rng.randrange(11)
    if k == 0:
        return rng.choice(["0300", "0200", "0100", "0400ff", "030030", "030041"])
    if k == 1:
        return rng.choice(["04000000", "05000000ff", "0800000000000000", "08000000040000a0"])
    if k == 2:
        return "%08x" % rng.getrandbits(32)
    if k == 3:
        return "ffffffff"
    if k == 4:  # item whose size reaches far beyond it
        return "ffff" + rng.choice(["30", "41", "1f50", "7480", "00"])
    if k == 5:  # property stores and values which overlap
        return "53505331" + rng.randbytes(4).hex()
    if k == 6:
        return "0c000000090000a0" + "04000000"
    if k == 7:
        return "00"
    if k == 8:  # one endless string
        return rng.choice(["61", "6100", "e9", "c3a9", "5c", "3cd8", "2561", "3e"])
    return rng.randbytes(rng.choice([1, 2, 3, 4, 8, 16])).hex()


def nested(rng, n):
    """A list of about n bytes of delegate items, each within the one before."""
    one = rng.choice([4, 8, 40])
    depth = max(1, n // (one + 44))
    b = b"\x06\0\x31\0\0\0"
    for _ in range(min(depth, 1400)):
        body = b"\x74\0" + min(len(b) + 4, 65535).to_bytes(2, "little") + b"CFSF" + b + bytes(32 + one)
        if len(body) > 65500:
            break
        b = (len(body) + 2).to_bytes(2, "little") + body
    return b.hex()


def le32(n):
    return (n & 0xFFFFFFFF).to_bytes(4, "little").hex()


def hostile_block(rng, n):
    """An extra block of n bytes of the given kind, filled with hostile tiles."""
    sig = rng.choice(list(M.EXTRA_NAMES))
    if rng.random() < 0.5:
        sig = rng.choice([0xA0000009, 0xA000000C])
    return [["append", le32(n + 8) + le32(sig)]] + nest(rng, sig, n)


def nest(rng, sig, n):
    if sig == 0xA0000009 and rng.random() < 0.7:
        # property storages: each claims a size, holds values that claim sizes
        out, left = [], n
        per = rng.choice([16, 24, 25, 29, 40, 200, n])
        claim = rng.choice([per, n, 0xFFFFFFFF, 4, 1, 24])
        inner = rng.choice([4, 5, 8, 9, 13, 1, per, n, 0xFFFFFFFF])
        head = le32(claim) + "53505331" + rng.choice(["05d5cdd59c2e1b10939708002b2cf9ae", "00" * 16])
        typ = rng.choice(["1f000000", "02000000", "1f000000ffffffff", "1f10000000ffffff"])
        body = (le32(inner) + le32(rng.choice([0, 2, n, 0xFFFFFFFF])) + "00" + typ)
        pat = (head + body * rng.choice([1, 1, 5, 50]))
        out.append(["append", {"n": left, "pat": pat}])
        return out
    if sig == 0xA000000C and rng.random() < 0.2:
        return [["append", nested(rng, n)]]
    return [["append", {"n": n, "pat": tile(rng)}]]


def gen(rng, tier):
    r = rng.random()
    spec = G.gen_spec(rng, big=0.0, small=True)
    faults = []
    link = M.build(spec)
    volume = rng.random() < 0.3
    n = rng.choice([0, 16, 100, 400, 1000, 2000, 4000, 9000, 20000] + ([65536, 120000] if rng.random() < 0.1 else []))
    if volume:
        n = rng.choice([2000, 9000, 20000, 65536, 65536, 120000] + ([300000] if rng.random() < 0.2 else []))
    if volume and rng.random() < 0.15:
        spec = monotone(rng, spec)
        link = M.build(spec)
        r = rng.choice([0, 0, 0.9])
        n = 16
    if r < 0.25:
        faults = [disk.anything(rng, link, 20) for _ in range(rng.choice([1, 2, 4]))]
    elif r < 0.55:  # more blocks instead of the terminator
        faults.append(["cut", link.sections[-1][1]])
        for _ in range(rng.choice([1, 1, 2, 4])):
            faults += hostile_block(rng, max(n // rng.choice([1, 4]), 4))
    elif r < 0.75:  # hostile list of target items
        h = dict(spec["header"])
        spec = dict(spec, targets=[], info=None if rng.random() < 0.5 else spec["info"], header=h)
        size = min(65535, n)
        faults = [["cut", 76], ["append", (size & 0xFFFF).to_bytes(2, "little").hex()],
                  ["append", nested(rng, size) if rng.random() < 0.2 else {"n": n, "pat": tile(rng)}]]
    elif r < 0.9:  # tile everything after the header or after some section
        a = rng.choice(link.sections)[1] if rng.random() < 0.6 else 76
        faults = [["cut", max(76, a)], ["append", {"n": n, "pat": tile(rng)}]]
    else:
        faults = [["append", {"n": n, "pat": tile(rng)}]] + [disk.overwrite(rng, link, 20) for _ in range(rng.choice([1, 3]))]
    ops = ["dict_all", "json", "target"] if rng.random() < 0.5 else ["dict"]
    if len(link.data) + n < 3000 and rng.random() < 0.15:
        ops.append("text")
    if rng.random() < 0.2:  # a header with every section announced
        faults.insert(0, ["le", 20, 4, rng.choice([0xFF, 0x7F, 0x83, 0x3, 0xFFFFFEFF])])
    scn = {"spec": spec, "faults": faults, "ops": ops, "memory": rng.random() < 0.08, "copy": rng.random() < 0.25,
           "terminal": rng.random() < 0.8}
    if volume:
        scn.update(volume=True, memory=False, copy=False, ops=["dict_all", "json", "target"] if rng.random() < 0.5 else ["dict"])
    return scn


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    dmg = disk.apply(link.data, scn["faults"])
    n = len(dmg)
    for f in scn["faults"]:
        res.faults["hostile bytes" if f[0] == "append" else f[0]] += 1
    res.nontrivial = dmg != link.data
    classes = []
    data = meter.Counted(dmg) if scn["copy"] else dmg
    meter.Counted.copied = 0
    lnk = None
    if scn.get("volume"):
        volume(scn, link, dmg, res)
        return res
    with host.Recorder():
        for op in ["open"] + scn["ops"]:
            a, b = STEPS[op]
            with meter.Meter(a + b * n) as m:
                if op == "open":
                    st, v = host.attempt(host.open_link, data, link.cp, scn["terminal"])
                else:
                    st, v = host.attempt(host.capture, lnk, op)
            res.counts["simulated ticks"] += m.steps
            worst = m.steps / (a + b * n)
            classes.append((op, round(worst, 1)))
            res.counts["budget used over half"] += worst > 0.5
            if isinstance(v, meter.TooFar):
                res.bad("steps", "%s of %d bytes needs more than %d ticks; it was in %s" % (op, n, a + b * n, v))
                return res
            if isinstance(v, MemoryError):
                res.bad("memory", "%s of %d bytes ran out of memory" % (op, n))
                return res
            if op == "open":
                if st == "err":
                    res.counts["refused"] += 1
                    return res
                lnk = v
        if scn["copy"]:
            a, b = COPY
            if meter.Counted.copied > a + b * n:
                res.bad("copying", "%d bytes copied for a file of %d" % (meter.Counted.copied, n))
            res.counts["bytes copied"] += meter.Counted.copied
        if scn["memory"]:
            with meter.Memory() as m:
                st, v = host.attempt(lambda: host.open_link(dmg, link.cp, scn["terminal"]).get_json(True))
            if m.peak > MEMORY[0] + MEMORY[1] * n or isinstance(v, MemoryError):
                res.bad("memory", "opening and reporting %d bytes needs %d bytes" % (n, m.peak))
    res.key = (n.bit_length(), classes, sorted(f[0] for f in scn["faults"]))
    return res


def volume(scn, link, dmg, res):
    """The same with a clock that counts bytes requested from the C library: what compiled code copies."""
    if meter.volume() is None:
        res.counts["no allocation counter"] += 1
        res.nontrivial = False
        return
    n, lnk, classes = len(dmg), None, []
    with host.Recorder():
        for op in ["open"] + scn["ops"]:
            v0, t0 = meter.volume(), time.thread_time()
            if op == "open":
                st, v = host.attempt(host.open_link, dmg, link.cp, scn["terminal"])
            else:
                st, v = host.attempt(host.capture, lnk, op)
            used, spent = meter.volume() - v0, time.thread_time() - t0
            a, b = VOLUME[op]
            res.counts["bytes requested"] += used
            res.counts["volume over half"] += used > (a + b * n) / 2
            classes.append((op, used.bit_length()))
            if used > a + b * n or isinstance(v, MemoryError):
                res.bad("volume", "%s of %d bytes requests %d bytes of memory in all" % (op, n, used))
                break
            a, b = CPU[op]
            if spent > a + b * n:
                res.bad("stalled", "%s of %d bytes kept the processor for over %.1f s" % (op, n, a + b * n))
                break
            if op == "open":
                if st == "err":
                    break
                lnk = v
    res.key = ("volume", n.bit_length(), classes, sorted(f[0] for f in scn["faults"]))


def valid(scn):
    return G.valid_spec(scn["spec"]) and set(scn["ops"]) <= set(VOLUME if scn.get("volume") else STEPS)


def describe(scn):
    link = M.build(scn["spec"])
    d = disk.apply(link.data, scn["faults"])
    return ["stored link: %d bytes" % len(link.data)] + ["fault %s" % f for f in scn["faults"]] + ["read: %d bytes" % len(d)]
