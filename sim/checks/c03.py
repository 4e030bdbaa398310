"""C03: damaged input is reported or refused with the library's error, never a crash."""
import io

from sim import disk, gen as G, host, model as M
from sim.checks import common as C
from sim.engine import Result

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 220000, "thorough": 3000000}
RULE = ("1..3 seeded links or junk are stored back to back and hit by 0..8 stacked faults of any kind (cuts, flips, hostile sizes, "
        "lost, stale, swapped, duplicated, inserted and dropped sectors), then opened with a seeded code page and all chosen "
        "reports requested; non-trivial: opened and damaged, or refused")
MEASURE = "distinct (accepted or refused, shape of the report: keys and item classes, warnings issued) tuples"
REAL = C.REAL
STUB = ["the disk (simulated faults)", "the writer of links (reference model)"]
ASSUME = ["code pages are Python text codecs"]
MORE_CP = [None, "ascii", "utf-8-sig", "utf-16", "utf-16le", "utf-32", "utf-7", "cp037", "cp864", "big5", "shift_jis", "euc_kr",
           "gb18030", "hz", "iso2022_jp", "cp1255"]


def gen(rng, tier):
    r = rng.random()
    specs, raw = [], None
    if r < 0.04:
        raw = rng.randbytes(rng.choice([0, 1, 2, 3, 4, 20, 75, 76, 77, 100, 300])).hex()
        faults = []
        if rng.random() < 0.5:
            raw = ("4c000000" + raw)[:len(raw) + 8]
    else:
        specs = [G.gen_spec(rng, big=0.01, small=rng.random() < 0.6) for _ in range(1 if rng.random() < 0.9 else 2)]
        link = M.build(specs[0])
        lo = 0 if rng.random() < 0.12 else 76 if rng.random() < 0.75 else 20
        faults = [disk.anything(rng, link, lo) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, 8]))]
        if rng.random() < 0.15:
            faults.append(["cut", rng.randrange(0, 90)])
    cp = specs[0]["cp"] if specs and rng.random() < 0.6 else rng.choice(MORE_CP)
    reports = C.pick_reports(rng, 0.3)
    return {"specs": specs, "raw": raw, "faults": faults, "cp": cp, "reports": reports, "terminal": rng.random() < 0.8,
            "handle": rng.random() < 0.15}


def stored(scn):
    links = [M.build(s) for s in scn["specs"]]
    base = b"".join(x.data for x in links) + (bytes.fromhex(scn["raw"]) if scn["raw"] else b"")
    return links, base, disk.apply(base, scn["faults"])


def shape(x, depth=0):
    if isinstance(x, dict):
        if depth > 3:
            return len(x)
        return tuple(sorted((str(k), shape(v, depth + 1)) for k, v in x.items() if k != "header"))
    if isinstance(x, list):
        return tuple(v.get("class", shape(v, depth + 1)) if isinstance(v, dict) else 0 for v in x[:6])
    return type(x).__name__


def run(scn):
    res = Result()
    links, base, dmg = stored(scn)
    if dmg != base:
        for f in scn["faults"]:
            res.faults[f[0]] += 1
    with host.Recorder() as rec:
        st, lnk = host.attempt(host.open_link, dmg, scn["cp"], scn["terminal"], io.BytesIO(dmg) if scn["handle"] else None)
        if st == "err":
            res.counts["refused"] += 1
            res.key = ("refused", len(dmg), dmg[:4])
            if not isinstance(lnk, host.LnkParserError):
                res.bad("crash", "opening %d bytes raised %s" % (len(dmg), host.show_exc(lnk)))
            elif links and dmg[:76] == links[0].data[:76]:
                res.bad("refused", "refused although its header is undamaged: %s" % host.show_exc(lnk))
            return res
        res.counts["opened"] += 1
        dicts = {}
        for full in (True, False):
            st, d = host.attempt(lnk.get_json, full)
            if st == "err":
                res.bad("report-raised", "dictionary report raised %s" % host.show_exc(d))
                return res
            dicts[full] = d
        for op in scn["reports"]:
            C.consistent(lnk, op, dicts, res)
        res.key = (shape(dicts[True]), sorted(set(t[:30] for t in rec.texts())))
        res.nontrivial = dmg != base or bool(scn["raw"])
    return res


def valid(scn):
    return all(G.valid_spec(s) for s in scn["specs"]) and set(scn["reports"]) <= set(host.REPORTS) and \
        scn["cp"] in MORE_CP + M.CODEPAGES and (scn["specs"] or scn["raw"] is not None)


def describe(scn):
    _, base, dmg = stored(scn)
    return ["stored: %d bytes" % len(base)] + ["fault %s" % f for f in scn["faults"]] + \
        ["read: %d bytes%s" % (len(dmg), " " + dmg.hex() if len(dmg) < 600 else "")]
