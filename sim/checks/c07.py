"""C07: walking a container of links visits each exactly once, across restarts."""
import io

from sim import disk, gen as G, host, interrupt, model as M, sched, stream
from sim.checks import common as C
from sim.engine import Result

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 90000, "thorough": 1400000}
RULE = ("1..8 seeded links are stored back to back with a fixed gap in a simulated container, whose tail may be torn or "
        "overwritten; a walker opens each at its boundary, reports it, records the next boundary and is crashed at seeded lines of "
        "library code and restarted from the recorded boundary; non-trivial: two or more links, a crash or a damaged tail")
MEASURE = "distinct (number of links, gap, crash places, damaged link index, layouts) tuples"
REAL = C.REAL
STUB = ["the container's disk (simulated faults)", "the writer of links (reference model)", "the walker's durable state (recorded boundary)"]
ASSUME = ["the reference model's link layouts follow [MS-SHLLINK]", "the walker's record of a boundary is atomic"]


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4, 8])
    cp = rng.choice(M.CODEPAGES)
    specs = []
    for _ in range(n):
        s = G.gen_spec(rng, big=0.01, small=rng.random() < 0.95)
        if rng.random() < 0.4:
            s["term"] = 0
        if rng.random() < 0.12:
            G.repeat(rng, s)
        specs.append(s)
    gap = rng.choice([0, 0, 4, 16, rng.randrange(40)])
    scn = {"specs": specs, "gap": gap, "gaps": rng.choice(["00", "ff", "4c000000", "0114020000000000c000000000000046", 5]),
           "start": rng.choice([0, gap, 30]), "how": rng.choice(["slice", "handle", "raw"]),
           "report": rng.choice(["dict_all", "dict_all", "json_all", "dict"]), "crashes": [], "faults": []}
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        scn["crashes"].append([rng.randrange(n + 1), rng.choice([1, 5, 20, 60, 200, rng.randrange(1, 900)])])
    del cp
    if rng.random() < 0.4:
        k = rng.choice(["cut", "zero", "stale"])
        frac = rng.random()
        scn["faults"] = [[k, frac, rng.choice(["ff", "41", 3])]]
    return scn


def container(scn):
    links = [M.build(s) for s in scn["specs"]]
    out = bytearray(M.pattern(scn["start"], "c7"))
    spans = []
    for i, x in enumerate(links):
        if i:
            out += M.pattern(scn["gap"], scn["gaps"])
        spans.append((len(out), len(out) + len(x.data)))
        out += x.data
    first = len(out)
    d = bytes(out)
    for k, frac, pat in scn["faults"]:
        a = int(len(d) * frac)
        first = min(first, a)
        d = d[:a] if k == "cut" else disk.apply(d, [["zero", a, len(d)] if k == "zero" else ["stale", a, len(d), pat]])
    return links, spans, d, first


class Crash(BaseException):
    pass


def open_at(scn, d, pos, cp):
    if scn["how"] == "slice":
        return host.open_link(d[pos:], cp, False)
    h = io.BytesIO(d) if scn["how"] == "handle" else io.BufferedReader(stream.Source(d, []), 4096)
    h.seek(pos)
    return host.open_link(None, cp, False, h)


def crash():
    raise Crash


def run(scn):
    res = Result()
    links, spans, d, first = container(scn)
    for f in scn["faults"]:
        res.faults["tail " + f[0]] += 1
    crashes = [list(c) for c in scn["crashes"]]
    places = []
    visited = []          # durable: written together with the boundary
    boundary = scn["start"]
    steps = 0
    limit = 4 * (len(d) // 60 + len(crashes) + 10)
    with host.Recorder():
        while boundary < len(d):
            steps += 1
            if steps > limit:
                res.bad("no-progress", "the walk does not end: boundary %d" % boundary)
                break
            i = len(visited)
            cp = links[i].cp if i < len(links) else "cp1252"

            def visit(boundary=boundary, cp=cp):
                lnk = open_at(scn, d, boundary, cp)
                return lnk.size, host.capture(lnk, scn["report"])

            todo = next((c for c in crashes if c[0] == i), None)
            if todo:
                crashes.remove(todo)
                with interrupt.dropping() as dropped, sched.At(todo[1], crash) as at:
                    st, v = host.attempt(visit)
                if at.where and not any(isinstance(d, Crash) for d in dropped):
                    res.faults["walker crash"] += 1
                    places.append((i, at.where))
                    if not isinstance(v, Crash):
                        res.bad("swallowed", "a crash in %s did not stop the walker" % at.where)
                    continue
            else:
                st, v = host.attempt(visit)
            if st == "err":
                if i < len(links) and spans[i][1] <= first:
                    res.bad("lost", "link %d of %d at %d: %s" % (i, len(links), boundary, host.show_exc(v)))
                elif not isinstance(v, host.LnkParserError):
                    res.bad("crash", "in the damaged tail: %s" % host.show_exc(v))
                break
            size, rep = v
            if not isinstance(size, int) or size < 76:
                res.bad("size", "link size %r" % size)
                break
            visited.append((boundary, size, rep))
            if i + 1 >= len(links):
                boundary = boundary + size
                break
            boundary += size + scn["gap"]
        for i, (x, (a, b)) in enumerate(zip(links, spans)):
            if b > first:
                break
            if i >= len(visited):
                res.bad("lost", "link %d of %d was not visited (walk: %s)" % (i, len(links), [v[:2] for v in visited]))
                break
            pos, size, rep = visited[i]
            if pos != a:
                res.bad("misplaced", "visit %d at %d instead of %d" % (i, pos, a))
                break
            if size != b - a:
                res.bad("size", "link %d: size %d instead of %d" % (i, size, b - a))
                break
            full = scn["report"].endswith("_all")
            exp = x.expected if full else M.short_of(x.expected)
            if G.repeats(scn["specs"][i]):  # which of two blocks of a kind is reported is left open
                exp = host.open_link(x.data, x.cp, False).get_json(full)
            if scn["report"].startswith("json"):
                got, exp = host.strict_json(rep), M.jsonable(exp)
            else:
                got = rep
            if got != exp:
                res.bad("differs", "link %d: %s" % (i, M.diff(exp, got)))
                break
    hurt = sum(b <= first for _, b in spans)
    res.key = (len(links), scn["gap"], places, hurt, [n for n, _, _ in links[0].sections], scn["how"])
    res.nontrivial = len(links) > 1 or bool(places) or bool(scn["faults"])
    return res


def valid(scn):
    return scn["specs"] and all(G.valid_spec(s, True) for s in scn["specs"]) and scn["how"] in ("slice", "handle", "raw") and \
        scn["report"] in host.REPORTS and type(scn["gap"]) is int and type(scn["start"]) is int


def describe(scn):
    links, spans, d, first = container(scn)
    return ["container of %d bytes, links at %s" % (len(d), spans), "damage from byte %d" % first] + \
        ["walker crashes at event %d of its visit of link %d" % (c[1], c[0]) for c in scn["crashes"]]
