"""C02: damage in one part of a link does not change the report of the other parts."""
from sim import disk, gen as G, host, model as M
from sim.checks import common as C
from sim.engine import Result

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 180000, "thorough": 2400000}
RULE = ("a seeded link is stored, 1..6 faults overwrite stored bytes in place (bit flips, bytes, counts and sizes, lost, stale, "
        "swapped and misdirected sectors; positions biased to fields that frame sections), every part whose footprint is intact "
        "is compared with the model; non-trivial: bytes differ and at least one part beyond the header is intact")
MEASURE = "distinct (intact part kinds, damaged section, fault kinds, layout) tuples"
REAL = C.REAL
STUB = ["the disk (simulated overwrites)", "the writer of links (reference model)"]
ASSUME = ["the reference model's link layouts follow [MS-SHLLINK]", "the first four bytes of the link are intact (else it may be refused)"]


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.01)
    link = M.build(spec)
    faults = [disk.overwrite(rng, link, 4) for _ in range(rng.choice([1, 1, 1, 2, 3, 6]))]
    return {"spec": spec, "faults": faults, "reports": C.pick_reports(rng, 0.04), "terminal": rng.random() < 0.85}


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    dmg = disk.apply(link.data, scn["faults"])
    if len(dmg) != len(link.data) or dmg[:4] != link.data[:4]:
        res.nontrivial = False
        return res
    hit = [i for i, (a, b) in enumerate(zip(link.data, dmg)) if a != b]
    if hit:
        for f in scn["faults"]:
            res.faults[f[0]] += 1
    intact = [p.kind for p in link.parts if p.intact(link.data, dmg)]
    sec = {name for name, a, b in link.sections for h in hit[:50] if a <= h < b}
    res.nontrivial = bool(hit) and any(k != "header" for k in intact)
    res.key = (sorted(set(intact)), intact.count("target"), sorted(sec), sorted(f[0] for f in scn["faults"]),
               [n for n, _, _ in link.sections])
    with host.Recorder():
        st, lnk = host.attempt(host.open_link, dmg, link.cp, scn["terminal"])
        if st == "err":
            res.bad("refused", "opening raised %s" % host.show_exc(lnk))
            return res
        dicts = {}
        for full in (True, False):
            st, d = host.attempt(lnk.get_json, full)
            if st == "err":
                res.bad("report-raised", "dictionary report raised %s" % host.show_exc(d))
                return res
            dicts[full] = d
            for kind, key, text in M.judge(link, dmg, d, full):
                res.bad(kind, "%s %s" % (key, text))
        for op in scn["reports"]:
            C.consistent(lnk, op, dicts, res)
    return res


def valid(scn):
    return G.valid_spec(scn["spec"]) and set(scn["reports"]) <= set(host.REPORTS)


def describe(scn):
    link = M.build(scn["spec"])
    return ["stored link: %d bytes, sections %s" % (len(link.data), link.sections)] + ["fault %s" % f for f in scn["faults"]]
