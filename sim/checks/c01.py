"""C01: a link cut short still reports everything stored before the cut, exactly."""
import io

from sim import disk, gen as G, host, model as M
from sim.checks import common as C
from sim.engine import Result

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 80000, "thorough": 1000000}
RULE = ("a seeded link is stored, the copy to the simulated disk crashes at 1..6 seeded byte positions (biased to sector, "
        "section and part boundaries), each cut copy is opened and all chosen reports are requested; non-trivial: at least one "
        "cut lies inside the link after its header")
MEASURE = "distinct (section in which the cut fell, offset in it (capped at 64), number of surviving parts, link layout) tuples"
REAL = C.REAL
STUB = ["the disk (simulated: bytes that survived the crash)", "the writer of links (reference model)"]
ASSUME = ["the reference model's link layouts follow [MS-SHLLINK]", "Windows programs store links in file order"]


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.01)
    link = M.build(spec)
    cuts = sorted({disk.cut_at(rng, link) for _ in range(rng.choice([2, 3, 4, 6]))})
    return {"spec": spec, "cuts": cuts, "reports": C.pick_reports(rng, 0.05), "handle": rng.random() < 0.2,
            "terminal": rng.random() < 0.85}


def where(link, cut):
    for name, a, b in link.sections:
        if a <= cut < b:
            return name, min(cut - a, 64)
    return "end", 0


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    layout = tuple(n for n, _, _ in link.sections)
    keys = []
    for cut in scn["cuts"]:
        if cut < 76:
            continue
        dmg = link.data[:cut]
        if cut < len(link.data):
            res.faults["crash during copy"] += 1
        one(link, dmg, cut, scn, res)
        keys.append((where(link, cut), sum(p.own[1] <= cut for p in link.parts)))
        if res.problems:
            break
    res.key = (keys, layout)
    res.nontrivial = any(c < len(link.data) for c in scn["cuts"])
    return res


def one(link, dmg, cut, scn, res):
    with host.Recorder():
        st, lnk = host.attempt(host.open_link, dmg, link.cp, scn["terminal"], io.BytesIO(dmg) if scn["handle"] else None)
        if st == "err":
            res.bad("refused", "cut at %d of %d: opening raised %s" % (cut, len(link.data), host.show_exc(lnk)))
            return
        dicts = {}
        for full in (True, False):
            st, d = host.attempt(lnk.get_json, full)
            if st == "err":
                res.bad("report-raised", "cut at %d: dictionary report raised %s" % (cut, host.show_exc(d)))
                return
            dicts[full] = d
            for kind, key, text in M.judge(link, dmg, d, full):
                res.bad(kind, "cut at %d of %d: %s %s" % (cut, len(link.data), key, text))
            for kind, key, text in M.judge_cut(link, cut, d):
                res.bad("invented-" + kind, "cut at %d of %d: %s %s" % (cut, len(link.data), key, text))
        for op in scn["reports"]:
            C.consistent(lnk, op, dicts, res)
        stored = link.spec["strings"]
        n = len(dmg)
        rel_ok = all(p.own[1] <= n for p in link.parts if p.kind == "string" and p.key in ("relative_path", "command_line_arguments"))
        if rel_ok:
            want = {"data": {k: v for k, v in stored.items() if v is not None}}
            st, t = host.attempt(lambda: lnk.lnk_command)
            if st == "err":
                res.bad("report-raised", "cut at %d: shortcut target raised %s" % (cut, host.show_exc(t)))
            else:
                p = C.check_target(want, t)
                if p:
                    res.bad("target-differs", "cut at %d: %s" % (cut, p))


def valid(scn):
    return G.valid_spec(scn["spec"]) and all(type(c) is int for c in scn["cuts"]) and scn["cuts"] and \
        set(scn["reports"]) <= set(host.REPORTS)


def describe(scn):
    link = M.build(scn["spec"])
    return ["stored link: %d bytes, sections %s" % (len(link.data), link.sections)] + \
        ["copy crashed after byte %d (%s)" % (c, where(link, c)[0]) for c in scn["cuts"]]
