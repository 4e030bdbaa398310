"""C06: leftover bytes after the end of a link are accounted for exactly."""
import copy
import hashlib
import io

from sim import disk, gen as G, host, model as M
from sim.checks import common as C
from sim.engine import Result

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 90000, "thorough": 1100000}
RULE = ("a seeded link is written over an older, longer file or followed by stale sectors or an appended payload (0 bytes to "
        "megabytes; random, zero, look-alike blocks, whole links, the tail of an older link), opened with terminal blocks on and "
        "off, all chosen reports compared with the model; non-trivial: there are leftover bytes")
MEASURE = "distinct (terminator value, leftover kind, leftover size class, layout, reports) tuples"
REAL = C.REAL
STUB = ["the disk (simulated overwrite of a longer file)", "the writer of links (reference model)"]
ASSUME = ["the reference model's link layouts follow [MS-SHLLINK]"]


def size(rng, blocks):
    """A size around a multiple of a common block size."""
    b = rng.choice(blocks)
    return max(1, b * rng.choice([1, 1, 2, 3, 4] if b < 100000 else [1, 2]) + rng.choice([-9, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 8, rng.randrange(-64, 80)]))


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.01, small=rng.random() < 0.5)
    k = rng.choice(["none", "bytes", "bytes", "bytes", "tiny", "pattern", "link", "oldtail", "blocks", "big"])
    tail = {"k": k}
    if k == "bytes":
        tail["hex"] = rng.randbytes(rng.randrange(1, 80)).hex()
    elif k == "tiny":
        tail["hex"] = rng.choice(["00", "01", "0000", "00000000", "04", "04000000", "ffffffff", "000000", "0000000000000000", "4c000000",
                                  rng.randbytes(rng.randrange(1, 9)).hex()])
    elif k == "pattern":
        tail.update(n=size(rng, [512, 1024, 4096, 8192, 16384]) if rng.random() < 0.5 else rng.choice([1, 3, 4, 5, 8, 100, 512, 4096]), pat=rng.choice(["00", "ff", "03000000", "0c000000040000a0", 7]))
    elif k == "big":
        tail.update(n=size(rng, [32768, 65536, 131072]) if rng.random() < 0.5 else rng.choice([65535, 65536, 100001] + [1 << 20, 3_000_001] * (rng.random() < 0.1)), pat=rng.choice(["00", "41", rng.getrandbits(16)]))
    elif k in ("link", "oldtail"):
        tail["spec"] = G.gen_spec(rng, big=0.0, small=True)
    elif k == "blocks":
        tail["extras"] = [G.extra(rng, spec["cp"], rng.choice(G.ONCE + ["unknown"])) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.08:
        G.repeat(rng, spec)
    return {"spec": spec, "tail": tail, "reports": C.pick_reports(rng, 0.06), "handle": rng.random() < 0.2}


def leftover(scn, link):
    t = scn["tail"]
    k = t["k"]
    if k == "none":
        return b""
    if k in ("bytes", "tiny"):
        return bytes.fromhex(t["hex"])
    if k in ("pattern", "big"):
        return M.pattern(t["n"], t["pat"])
    if k == "link":
        return M.build(t["spec"]).data
    if k == "oldtail":
        return M.build(t["spec"]).data[len(link.data):]
    return b"".join(M.extra_bytes(x, scn["spec"]["cp"])[0] for x in t["extras"])


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    tail = leftover(scn, link)
    data = link.data + tail
    if tail:
        res.faults["leftover: " + scn["tail"]["k"]] += 1
    res.nontrivial = bool(tail)
    res.key = (scn["spec"]["term"], scn["tail"]["k"], len(tail) if len(tail) < 16 else len(tail).bit_length() + 100,
               [n for n, _, _ in link.sections], scn["reports"])
    with host.Recorder():
        for terminal in (True, False):
            exp = copy.deepcopy(link.expected)
            if G.repeats(scn["spec"]):  # which of two blocks of a kind is reported is left open: as without leftover bytes
                st, exp = host.attempt(lambda: host.open_link(link.data, link.cp, terminal).get_json(True))
                if st == "err" or exp.get("size") != len(link.data):
                    res.bad("report-raised", "the link alone: %s" % (host.show_exc(exp) if st == "err" else exp.get("size")))
                    return res
            if terminal and tail:
                exp["extra"]["TERMINAL_BLOCK"] = {"size": 4 + len(tail), "appended_data_sha256": hashlib.sha256(tail).hexdigest()}
                exp["size"] = len(data)
            st, lnk = host.attempt(host.open_link, data, link.cp, terminal, io.BytesIO(data) if scn["handle"] else None)
            if st == "err":
                res.bad("refused", "opening with %d leftover bytes raised %s" % (len(tail), host.show_exc(lnk)))
                return res
            dicts = {True: exp, False: M.short_of(exp)}
            for full in (True, False):
                st, d = host.attempt(lnk.get_json, full)
                if st == "err":
                    res.bad("report-raised", host.show_exc(d))
                    return res
                if d != dicts[full]:
                    res.bad("differs", "terminal blocks %s, %d leftover bytes: %s" % (
                        "on" if terminal else "off", len(tail), M.diff(dicts[full], d)))
            if lnk.size != exp["size"]:
                res.bad("size", "size %r, expected %r" % (lnk.size, exp["size"]))
            for op in scn["reports"]:
                C.consistent(lnk, op, dicts, res)
            if res.problems:
                break
    return res


def valid(scn):
    t = scn["tail"]
    if not G.valid_spec(scn["spec"], True) or not set(scn["reports"]) <= set(host.REPORTS):
        return False
    if t["k"] in ("link", "oldtail"):
        return G.valid_spec(t["spec"])
    if t["k"] == "blocks":
        return all(G.valid_extra(x, scn["spec"]["cp"]) for x in t["extras"])
    return t["k"] in ("none", "bytes", "tiny", "pattern", "big")


def describe(scn):
    link = M.build(scn["spec"])
    return ["stored link: %d bytes, terminator %d" % (len(link.data), scn["spec"]["term"]),
            "leftover: %s, %d bytes" % (scn["tail"]["k"], len(leftover(scn, link)))]
