"""C05: nothing a link declares goes missing from the report without a warning."""
import struct

from sim import disk, gen as G, host, model as M
from sim.checks import common as C
from sim.engine import Result

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 300000, "thorough": 4500000}
RULE = ("a seeded link is stored and hit by a crash cut and/or 0..4 overwrites; an independent walk over the damaged bytes lists the "
        "parts whose framing is still readable; a listed part that is absent from the report needs at least one warning; "
        "non-trivial: a listed part is absent, or the damaged link still declares parts beyond the header")
MEASURE = "distinct (kinds of declared parts, kinds of absent parts, warnings issued) tuples"
REAL = C.REAL
STUB = ["the disk (simulated faults)", "the writer of links (reference model)", "the host's warning display (recorder)"]
ASSUME = ["a string longer than 260 characters in the first three fields is cut there, as the tool documents"]


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.01)
    link = M.build(spec)
    faults = []
    r = rng.random()
    if r < 0.65:
        faults += [disk.overwrite(rng, link, 4) for _ in range(rng.choice([1, 1, 2, 4]))]
    if r > 0.4:
        faults.append(["cut", disk.cut_at(rng, link)])
    if r < 0.05:
        faults = []
    return {"spec": spec, "faults": faults, "terminal": rng.random() < 0.85, "full": rng.random() < 0.7}


def declared(d):
    """Parts declared in readable framing: {"targets": n items or None, "info":, "strings": [...], "extra": [names]}"""
    hsize, flags = struct.unpack_from("<I", d, 0)[0], struct.unpack_from("<I", d, 20)[0]
    out = {"targets": None, "info": False, "strings": [], "extra": []}
    pos = hsize
    if flags & 1:
        out["targets"] = 0
        if pos + 2 > len(d):
            pos = len(d)
        else:
            end = pos + 2 + struct.unpack_from("<H", d, pos)[0]
            p = pos + 2
            stop = min(end, len(d))
            while p + 3 <= stop:
                n = struct.unpack_from("<H", d, p)[0]
                if n == 0:
                    break
                if n < 3:  # an item of which not even the kind is left
                    out["targets"] += 1
                    break
                out["targets"] += 1
                p += n
            pos = end
    if flags & 2:
        if not flags & 0x100:
            if pos + 12 > len(d):
                out["info"] = True
            else:
                out["info"] = bool(struct.unpack_from("<I", d, pos + 8)[0] & 3)
        pos = len(d) if pos + 4 > len(d) else pos + struct.unpack_from("<I", d, pos)[0]
    broken = False
    for i, key in enumerate(M.STRING_KEYS):
        if not flags >> (2 + i) & 1:
            continue
        out["strings"].append(key)
        if broken:
            continue
        if pos + 2 > len(d):
            broken = True
            continue
        n = struct.unpack_from("<H", d, pos)[0]
        if key in M.LIMITED:
            n = min(n, 260)
        pos += 2 + n * (2 if flags & 0x80 else 1)
    if broken:
        return out
    while pos + 8 <= len(d):
        size, sig = struct.unpack_from("<II", d, pos)
        if size < 8:
            break
        out["extra"].append(M.EXTRA_NAMES.get(sig, "UNKNOWN_BLOCK"))
        pos += size
    return out


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    dmg = disk.apply(link.data, scn["faults"])
    if len(dmg) < 76 or dmg[:4] != link.data[:4]:
        res.nontrivial = False
        return res
    for f in scn["faults"]:
        res.faults[f[0]] += 1
    with host.Recorder() as rec:
        st, lnk = host.attempt(host.open_link, dmg, link.cp, scn["terminal"])
        if st == "err":
            res.bad("refused", "opening raised %s" % host.show_exc(lnk))
            return res
        st, rep = host.attempt(lnk.get_json, scn["full"])
        if st == "err":
            res.bad("report-raised", "dictionary report raised %s" % host.show_exc(rep))
            return res
        n = len(rec)
        kinds = sorted({t[:24] for t in rec.texts()})
    want = declared(dmg)
    absent = []
    items = rep.get("target", {}).get("items", [])
    if want["targets"] is not None and "target" not in rep:
        absent.append("the target list")
    elif want["targets"] is not None and len(items) < want["targets"]:
        absent.append("%d of %d target items" % (want["targets"] - len(items), want["targets"]))
    if want["info"] and not rep["link_info"]:
        absent.append("the link info")
    for k in want["strings"]:
        if k not in rep["data"]:
            absent.append("string " + k)
    for k in set(want["extra"]):
        if k == "UNKNOWN_BLOCK":
            m = len(rep["extra"].get(k, []))
            if m < want["extra"].count(k):
                absent.append("%d unknown blocks" % (want["extra"].count(k) - m))
        elif k not in rep["extra"]:
            absent.append(k)
    if absent:
        res.counts["runs with absent parts"] += 1
    if absent and not n:
        res.bad("silent", "%s not reported, and no warning issued" % ", ".join(sorted(absent)))
    if not scn["faults"] or dmg == link.data:
        for kind, key, text in M.judge(link, dmg, rep, scn["full"]):
            if kind == "undamaged":
                res.bad("dropped", "undamaged link: %s %s" % (key, text))
    res.key = (want["targets"], want["info"], want["strings"], want["extra"], sorted(absent), kinds)
    res.nontrivial = bool(absent or want["targets"] or want["info"] or want["strings"] or want["extra"])
    return res


def valid(scn):
    return G.valid_spec(scn["spec"]) and type(scn["full"]) is bool


def describe(scn):
    link = M.build(scn["spec"])
    d = disk.apply(link.data, scn["faults"])
    return ["stored link: %d bytes, sections %s" % (len(link.data), link.sections)] + ["fault %s" % f for f in scn["faults"]] + \
        ["declared in what is read: %s" % (declared(d) if len(d) >= 76 else None)]
