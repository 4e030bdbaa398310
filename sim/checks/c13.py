"""C13: a failed write of a report is never hidden and does no harm."""
import sys

from sim import disk, gen as G, host, model as M, stream
from sim.checks import common as C
from sim.engine import Result

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 75000, "thorough": 1000000}
RULE = ("a seeded link (a fifth damaged) is printed 1..4 times to simulated standard outputs (buffer 0..8192, 5 encodings, error "
        "handlers, line buffering, newline translation, or a bare writer) whose writes are short, interrupted, would block or fail "
        "(10 kinds) at seeded points; the very error has to surface, what arrived has to be a prefix of the report, and a stream "
        "that does not fail has to get it completely and once; non-trivial: a write was disturbed or a character not encodable")
MEASURE = "distinct (report, stream configuration, fault kind, bytes arrived before it as power of two) tuples"
REAL = C.REAL + ["io text and buffer layers (CPython)"]
STUB = ["the device under standard output (simulated raw stream)"]
ASSUME = ["without a buffer below the text layer writes are whole or fail (CPython's text layer ignores short counts there)"]
OPS = ["json", "json_all", "target", "target_json"]


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.01, small=rng.random() < 0.8)
    link = M.build(spec)
    faults = [disk.overwrite(rng, link, 76)] if rng.random() < 0.2 else []
    prints = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        op = rng.choice(OPS) if rng.random() < 0.9 else rng.choice(["text", "text_all"])
        cfg = stream.sink_config(rng)
        if rng.random() < 0.15:
            cfg["buffer"] = -1
        unb = cfg["buffer"] <= 0
        prints.append([op, cfg, stream.write_plan(rng, 2500, unb, text=cfg["buffer"] < 0)])
    if rng.random() < 0.3:
        prints.append([prints[-1][0], dict(stream.sink_config(rng, True), errors="backslashreplace"), []])
    return {"spec": spec, "faults": faults, "terminal": rng.random() < 0.8, "prints": prints}


def show(lnk, op, cfg, plan, want, res, reached):
    """One print; returns a problem or None."""
    if cfg["buffer"] < 0:
        sink = out = stream.TextSink(plan)
    else:
        sink = stream.Sink(plan)
        out = stream.stdout(sink, cfg)
    real = sys.stdout
    sys.stdout = out
    try:
        st, v = host.attempt(host.call, lnk, op)
        moved = sys.stdout is not out
    finally:
        sys.stdout = real
    closed = getattr(out, "closed", False)
    during = len(sink.raised)
    flushed = "ok"
    if st == "ok" and not closed:
        flushed, fv = host.attempt(out.flush)
    if cfg["buffer"] < 0:
        got, full, able = sink.text, want, True
    else:
        got = bytes(sink.got)
        full, able = stream.encoded(want, cfg)
    for k, n in sink.fired.items():
        if n:
            res.faults["write: " + (k if k != "fail" else plan[-1][1])] += n
    blocked = sink.fired["would block"]
    reached.append((op, cfg["buffer"], cfg["encoding"], type(v).__name__ if st == "err" else "", len(got).bit_length()))
    sink.plan = []
    if cfg["buffer"] >= 0:
        host.attempt(out.close)
    where = "%s to %s with plan %s" % (op, cfg, plan)
    if moved or closed:
        return "harm", "%s: standard output was %s" % (where, "replaced" if moved else "closed")
    if not full.startswith(got):
        return "garbled", "%s: received %d bytes which are no prefix of the report's %d" % (where, len(got), len(full))
    if during:
        if st == "ok" and all(isinstance(e, InterruptedError) for e in sink.raised) and got == full:
            return None  # repeated, and delivered once
        if st == "ok":
            return "hidden", "%s: the write failed with %s, but the call returned" % (where, host.show_exc(sink.raised[0]))
        if v is not sink.raised[0] and not (sink.raised[0].__class__ is v.__class__ and v in sink.raised):
            return "replaced", "%s: the write failed with %s, the call raised %s" % (
                where, host.show_exc(sink.raised[0]), host.show_exc(v))
        return None
    if st == "err":
        if not able and isinstance(v, UnicodeEncodeError):
            res.faults["write: unencodable character"] += 1
            return None
        if blocked and isinstance(v, BlockingIOError):
            return None
        return "raised", "%s: nothing failed, but the call raised %s" % (where, host.show_exc(v))
    if not able:
        return "hidden", "%s: the report cannot be encoded, but the call returned" % where
    if flushed == "ok" and got != full:
        return "incomplete", "%s: no error, but only %d of %d arrived" % (where, len(got), len(full))
    return None


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    data = disk.apply(link.data, scn["faults"])
    reached = []
    with host.Recorder():
        st, lnk = host.attempt(host.open_link, data, link.cp, scn["terminal"])
        if st == "err":
            res.nontrivial = False
            return res
        for op, cfg, plan in scn["prints"]:
            st, want = host.attempt(lambda op=op: host.capture(host.open_link(data, link.cp, scn["terminal"]), op))
            if st == "err" or not isinstance(want, str):
                continue
            problem = show(lnk, op, cfg, plan, want, res, reached)
            if problem:
                res.bad(*problem)
                break
    res.key = reached
    res.nontrivial = bool(res.faults)
    return res


def valid(scn):
    for op, cfg, plan in scn["prints"]:
        if op not in OPS + ["text", "text_all"] or not stream.valid_plan(plan, cfg["buffer"] <= 0, cfg["buffer"] < 0):
            return False
        if not stream.valid_config(dict(cfg, buffer=max(cfg["buffer"], 0))):
            return False
    return G.valid_spec(scn["spec"])


def describe(scn):
    return ["%s to %s, writes %s" % tuple(p) for p in scn["prints"]]
