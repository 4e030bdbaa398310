"""C08: how the source delivers its bytes never changes the result."""
import os
import tempfile

from sim import disk, gen as G, host, model as M, stream
from sim.checks import common as C
from sim.engine import Result

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 150000, "thorough": 2200000}
RULE = ("a seeded link (damaged in a third of the runs) is read from a simulated source under a seeded delivery schedule (chunk "
        "sizes, short and interrupted reads, delays) through raw, buffered, pipe, in-memory, duck-typed, gzip, zip, mmap and real "
        "file layers from a seeded start position; the reports have to equal those from the bytes; non-trivial: not a plain "
        "in-memory stream at position 0")
MEASURE = "distinct (source kind, start position class, schedule shape, size class) tuples"
REAL = C.REAL + ["io, gzip, zipfile, mmap layers (CPython)"]
STUB = ["the device under the source (simulated raw stream)", "time spent in delays (simulated clock)"]
ASSUME = ["a source's read() returns everything up to its end, as Python's io protocol says"]
_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), tempfile.TemporaryDirectory(prefix="lnk-c08-"))
    return os.path.join(_scratch[1].name, "a.lnk")


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.02, small=rng.random() < 0.6)
    link = M.build(spec)
    faults = [disk.anything(rng, link, 20) for _ in range(rng.choice([1, 2]))] if rng.random() < 0.3 else []
    pre = rng.choice([0, 0, 0, 1, 76, 4096, rng.randrange(200)])
    if rng.random() < 0.06:  # the source has been read, to its end or nearly so
        faults.append(["cut", rng.choice([0, 0, 1, 4, 75, rng.randrange(76)])])
        pre = "link"
    n = len(link.data) + (pre if pre != "link" else 100)
    return {"spec": spec, "faults": faults, "kind": rng.choice(stream.WRAPS), "pre": pre, "plan": stream.chunks(rng, n),
            "chunk": rng.choice([1 if n < 5000 else 7, 3, 100, 512, 8192, 65536]) if n < 100000 else rng.choice([512, 8192, 65536]),
            "terminal": rng.random() < 0.8, "report": rng.choice(["dict_all", "dict_all", "json", "target_json", "text"] if rng.random() < 0.2 else ["dict_all"])}


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    body = disk.apply(link.data, scn["faults"])
    for f in scn["faults"]:
        res.faults["stored: " + f[0]] += 1
    before = link.data if scn["pre"] == "link" else M.pattern(scn["pre"], 11)
    data, pre = before + body, len(before)
    kind = scn["kind"]
    if kind == "mmap" and not data:
        kind = "bytesio"
    path = scratch() if kind == "file" else None
    handle, src = stream.wrap(kind, data, scn["plan"], scn["chunk"], path)
    try:
        if pre:
            got = b""
            while len(got) < pre:
                try:
                    more = handle.read(pre - len(got))
                except InterruptedError:
                    continue
                if not more:
                    break
                got += more
        with host.Recorder():
            r1 = host.attempt(host.open_link, body, link.cp, scn["terminal"])
            r2 = host.attempt(host.open_link, None, link.cp, scn["terminal"], handle)
            if r1[0] != r2[0]:
                res.bad("outcome", "from bytes: %s; from %s: %s" % (
                    "opened" if r1[0] == "ok" else host.show_exc(r1[1]), kind, "opened" if r2[0] == "ok" else host.show_exc(r2[1])))
            elif r1[0] == "err":
                if type(r1[1]) is not type(r2[1]) or str(r1[1]) != str(r2[1]):
                    res.bad("outcome", "from bytes: %s; from %s: %s" % (host.show_exc(r1[1]), kind, host.show_exc(r2[1])))
            else:
                a, b = host.attempt(host.capture, r1[1], scn["report"]), host.attempt(host.capture, r2[1], scn["report"])
                if a[0] != b[0] or (a[0] == "ok" and a[1] != b[1]):
                    res.bad("differs", "%s from %s: %s" % (scn["report"], kind, M.diff(a[1], b[1])))
                if body == link.data and scn["report"] == "dict_all" and b[0] == "ok":
                    if b[1] != link.expected:
                        res.bad("differs-from-model", "%s" % M.diff(link.expected, b[1]))
            if r2[0] == "ok":
                rest = host.attempt(handle.read)
                if getattr(handle, "closed", False):
                    res.bad("closed", "the source was closed")
                elif rest[0] == "ok" and rest[1]:
                    res.bad("position", "%d bytes of the source were left unread" % len(rest[1]))
    finally:
        if hasattr(handle, "close"):
            handle.close()
    if src is not None:
        for k, v in src.fired.items():
            if v:
                res.faults[k] += v
        res.sim_s += src.clock
    shape = [p if isinstance(p, str) else "d" if isinstance(p, list) else min(p, 5) for p in scn["plan"][:12]]
    res.key = (kind, min(pre, 2), shape, len(body).bit_length(), scn["chunk"])
    res.nontrivial = not (kind == "bytesio" and pre == 0)
    return res


def valid(scn):
    return G.valid_spec(scn["spec"]) and scn["kind"] in stream.WRAPS and (scn["pre"] == "link" or type(scn["pre"]) is int and scn["pre"] >= 0) and \
        scn["chunk"] > 0 and scn["report"] in host.REPORTS and \
        all(p == "eintr" or (type(p) is int and p > 0) or p[0] == "delay" for p in scn["plan"])


def describe(scn):
    return ["source %s, start %s, plan %s, then %d bytes at a time" % (scn["kind"], scn["pre"], scn["plan"][:40], scn["chunk"])]
