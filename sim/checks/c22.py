"""C22: an operation may be entered from within another."""
import io
import sys
import warnings

from sim import conc, disk, gen as G, host, model as M, sched
from sim.checks import common as C
from sim.engine import Result

ID = "C22"
LEVEL = "exploration"
LIMIT = 25.0
RUNS = {"quick": 30000, "thorough": 400000}
RULE = ("while a link is opened or reported, the host runs further openings and reports, of the same link or of others, on top of it: "
        "a signal handler or finalizer at a seeded line or instruction of library (20%: also yaml, json, re) code, the warning hook, "
        "the standard output's write(), the source's read(), up to three deep; each operation has to give what it gives alone in a "
        "process of its own and, undamaged, the model; in 12% of the runs the outermost one is the first use of the library in its "
        "process; non-trivial: an operation was entered from within another")
MEASURE = "distinct (outer operation, kind and place of entry, inner operations) tuples"
REAL = C.REAL
STUB = ["the writer of links (reference model)", "the origin of the nested call (signal, finalizer, hook, stream), at simulated instants"]
ASSUME = ["the host's own nested calls do not change the warning filters or the standard output for the operation around them"]
OPENING = ["open", "open_source", "refused"]
OPS = conc.OPS + OPENING
TEXT = ["text", "text_all"]
KINDS = ["line", "instruction", "warning", "write", "read"]


def COLD(scn):
    """The outer operation is the first use of the library in its process."""
    return scn.get("pristine", False)


def op(rng):
    r = rng.random()
    return rng.choice(TEXT) if r < 0.06 else rng.choice(OPENING) if r < 0.3 else rng.choice(conc.OPS)


def job(rng, n, deep, outer=None):
    o = outer if outer and rng.random() < 0.3 else op(rng)
    hooks = ["warning"] + ["write"] * 3 * host.printed(o) + ["read"] * 3 * (o == "open_source")
    entries = []
    if deep:
        for _ in range(rng.choice([1, 1, 2, 3]) if deep == 3 else rng.choice([0, 0, 1])):
            kind = rng.choice(hooks + ["line", "line", "line", "instruction"] * (deep == 3))
            entries.append([kind, rng.getrandbits(20) if kind in ("line", "instruction") else rng.choice([1, 1, 1, 2, 3]),
                            [job(rng, n, deep - 1, o) for _ in range(rng.choice([1, 1, 2]))]])
    return [rng.randrange(n), o, entries]


def gen(rng, tier):
    links = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = G.gen_spec(rng, big=0.01, small=rng.random() < 0.85)
        x = M.build(s)
        links.append({"spec": s, "faults": [disk.overwrite(rng, x, 76) for _ in range(rng.choice([0, 0, 1, 2]))] + \
                      [disk.odd(rng, x) for _ in range(rng.random() < 0.1)], "terminal": rng.random() < 0.8})
    if len(links) > 1 and rng.random() < 0.2:
        a, b = G.sibling(rng, links[0]["spec"])
        links[0].update(spec=a, faults=[])
        links[1].update(spec=b, faults=[])
    return {"links": links, "job": job(rng, len(links), 3), "around": rng.random() < 0.2, "pristine": rng.random() < 0.12}


class Source(io.RawIOBase):
    """Three pieces; tells of each read."""

    def __init__(self, data, told):
        self.data, self.at, self.told = data, 0, told

    def readable(self):
        return True

    def readinto(self, b):
        self.told()
        n = min(len(b), 1 + len(self.data) // 3, len(self.data) - self.at)
        b[:n] = self.data[self.at:self.at + n]
        self.at += n
        return n


class Host:
    """Runs jobs; each has a text of its own on the simulated standard output and its own counts of hook calls."""

    encoding, errors = "utf-8", "strict"

    def __init__(self, data, opened, around, apart=lambda job: job()):
        self.data, self.opened, self.around, self.apart = data, opened, around, apart
        self.frames = []
        self.done, self.reached = [], []

    def write(self, s):
        self.frames[-1]["text"].append(s)
        self.hook("write")
        return len(s)

    def flush(self):
        pass

    def warned(self, *a, **kw):
        self.hook("warning")

    def hook(self, kind):
        if not self.frames:
            return
        f = self.frames[-1]
        f["seen"][kind] = f["seen"].get(kind, 0) + 1
        for e in f["entries"]:
            if e[0] == kind and e[1] == f["seen"][kind]:
                self.enter(e)

    def count(self, k, o, grain):
        """The number of places in the operation."""
        c = sched.Count(grain, self.around)
        self.frames.append({"text": [], "seen": {}, "entries": []})
        other = None if o in OPENING else host.open_link(*self.data[k])
        with c:
            host.attempt(self.perform, k, o, other)
        self.frames.pop()
        return c.n

    def enter(self, e):
        self.reached.append((len(self.frames), e[0], [j[1] for j in e[2]]))
        for j in e[2]:
            self.run(j)

    def run(self, j):
        k, o, entries = j
        f = {"text": [], "seen": {}, "entries": entries}
        at = [e for e in entries if e[0] in ("line", "instruction")]
        tap = None
        if at and not self.frames:
            grain = at[0][0]
            places = self.apart(lambda: self.count(k, o, grain))
            if places:
                actions = {}
                for e in at:
                    n = 1 + e[1] % places
                    if e[0] == grain and n not in actions:
                        actions[n] = lambda e=e: self.enter(e)
                tap = sched.Series(actions, grain, self.around)
        lnk = None if o in OPENING else self.opened[k]
        self.frames.append(f)
        try:
            if tap:
                with tap:
                    st, v = host.attempt(self.perform, k, o, lnk)
            else:
                st, v = host.attempt(self.perform, k, o, lnk)
        finally:
            self.frames.pop()
        if st == "ok" and o in ("open", "open_source"):
            self.frames.append({"text": [], "seen": {}, "entries": []})
            st, v = host.attempt(v.get_json, True)
            self.frames.pop()
        text = "".join(f["text"])
        self.done.append((k, o, ["err", host.show_exc(v), text] if st == "err" else ["ok", v, text]))

    def perform(self, k, o, lnk):
        if o == "open":
            return host.open_link(*self.data[k])
        if o == "open_source":
            b, cp, terminal = self.data[k]
            return host.open_link(None, cp, terminal, io.BufferedReader(Source(b, lambda: self.hook("read")), 64))
        if o == "refused":
            return host.open_link(self.data[k][0][4:60])
        return conc.perform(lnk, o)


def walk(j):
    yield j[0], j[1]
    for e in j[2]:
        for x in e[2]:
            yield from walk(x)


def run(scn):
    res = Result()
    models, data = [], []
    for j in scn["links"]:
        m = M.build(j["spec"])
        b = disk.apply(m.data, j["faults"])
        data.append((b, m.cp, j["terminal"]))
        models.append(m if b == m.data else None)
        for f in j["faults"]:
            res.faults["stored: " + f[0]] += 1
    pairs = sorted(set(walk(scn["job"])))
    old = sys.stdout
    with warnings.catch_warnings():
        warnings.simplefilter("always")

        def simulate(jobs, opened):
            h = Host(data, opened, scn["around"], conc.alone if scn.get("pristine") else lambda job: job())
            warnings.showwarning = h.warned
            sys.stdout = h
            try:
                for j in jobs:
                    h.run(j)
            finally:
                sys.stdout = old
            return h

        def reference():
            with warnings.catch_warnings():
                warnings.showwarning = lambda *a, **kw: None
                out = {}
                for k, o in pairs:
                    h = simulate([[k, o, []]], conc.Opened(data))
                    out[k, o] = h.done[0][2]
                return out

        warnings.showwarning = lambda *a, **kw: None
        want = conc.alone(reference) if len(pairs) > 1 or scn.get("pristine") else reference()
        # In a pristine run the first operation is the first use of the library in this process.
        opened = conc.Opened(data) if scn.get("pristine") else [host.open_link(*d) for d in data]
        res.counts["runs in a process of their own"] += scn.get("pristine", False)
        h = simulate([scn["job"]], opened)
        h2 = simulate([[k, "dict_all", []] for k in range(len(data))], opened)
    for k, o, got in h.done + [(k, "dict_all later", g) for k, _, g in h2.done]:
        name = o.split()[0]
        w = want.get((k, name))
        if w is not None and got != w:
            res.bad("differs", "%s of link %d, with %s: %s" % (o, k, h.reached[:4], M.diff(w, got)))
            break
        if models[k] is not None and name != "refused":
            exp = {True: models[k].expected, False: M.short_of(models[k].expected)}
            if got[0] == "err":
                p = "raised " + got[1]
            else:
                p = C.compare("dict_all" if name in ("open", "open_source") else name, got[2] if host.printed(name) else got[1], exp)
            if p:
                res.bad("differs-from-model", "%s of link %d, with %s: %s" % (o, k, h.reached[:4], p))
                break
    for d, kind, ops in h.reached:
        res.faults["entered from a %s, depth %d" % (kind, d)] += 1
    res.key = (scn["job"][1], h.reached)
    res.nontrivial = bool(h.reached)
    return res


def valid_job(j, n, depth=0):
    return len(j) == 3 and type(j[0]) is int and 0 <= j[0] < n and j[1] in OPS + TEXT and depth < 4 and all(
        len(e) == 3 and e[0] in KINDS and type(e[1]) is int and e[1] >= 0 and e[2] and
        (depth == 0 or e[0] in KINDS[2:]) and all(valid_job(x, n, depth + 1) for x in e[2]) for e in j[2])


def valid(scn):
    n = len(scn["links"])
    return n >= 1 and all(G.valid_spec(j["spec"]) for j in scn["links"]) and valid_job(scn["job"], n) and type(scn["around"]) is bool and \
        type(scn.get("pristine", False)) is bool


def describe(scn):
    out = []

    def show(j, pad):
        out.append("%s%s of link %d" % (pad, j[1], j[0]))
        for kind, where, jobs in j[2]:
            out.append("%s  at %s %d%s:" % (pad, kind, where, " (modulo their number)" if kind in ("line", "instruction") else ""))
            for x in jobs:
                show(x, pad + "    ")

    show(scn["job"], "")
    return out
