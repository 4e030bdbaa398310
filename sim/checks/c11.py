"""C11: every report is repeatable, whatever was opened, reported or modified before."""
import copy
import pickle

from sim import disk, engine, gen as G, host, model as M
from sim.checks import common as C
from sim.engine import Result

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 42000, "thorough": 600000}
RULE = ("1..4 seeded links (a third damaged) and a seeded history of 3..40 operations on them: open with options, any report or "
        "accessor, partly consumed and nested iterations kept alive, modification of everything returned, release and reopen; "
        "every result is compared with that of a fresh copy (in 10% of the runs: made in a process of its own) and, undamaged, with "
        "the model; non-trivial: at least 3 operations")
MEASURE = "distinct histories (sequence of operation kinds and links)"
REAL = C.REAL
STUB = ["the writer of links (reference model)", "the disk (simulated faults)"]
ASSUME = ["callers modify returned data, not the internals of the link object"]
OPS = ["dict", "dict_all", "json", "json_all", "target", "target_json", "iter_targets", "iter_extras", "strings", "command", "flags",
       "header"]

# Other code pages for the same bytes, some of which are no superset of ASCII.
AS_CP = ["cp1252", "cp1252", "cp037", "shift_jis_2004", "utf-7", "cp864", "utf-16", "hz", "latin-1", "utf-8", "cp932", "koi8-r"]
# No code page given.
DEFAULT = "default"


def COLD(scn):
    """References of the run come from processes in which nothing else was opened."""
    return scn.get("pristine", False)


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    links = []
    for _ in range(n):
        s = G.gen_spec(rng, big=0.01, small=rng.random() < 0.95)
        x = M.build(s)
        links.append({"spec": s, "faults": [disk.overwrite(rng, x, 76) for _ in range(rng.choice([1, 2]))] if rng.random() < 0.33 else [],
                      "terminal": rng.random() < 0.7})
    if n > 1 and rng.random() < 0.2:
        # two that are nearly the same
        a, b = rng.sample(range(n), 2)
        spec, other = G.sibling(rng, links[a]["spec"])
        links[a].update(spec=spec, faults=[])
        links[b] = dict(copy.deepcopy(links[a]), spec=other)
    elif n > 1 and rng.random() < 0.3:
        links[1] = dict(copy.deepcopy(links[0]), terminal=not links[0]["terminal"])
        if rng.random() < 0.5:
            links[rng.randrange(2)]["as_cp"] = rng.choice(AS_CP + [DEFAULT])
    elif rng.random() < 0.35:  # one link whose report shows what sticks
        x = rng.choice(links)
        x["as_cp"] = DEFAULT
        if x["spec"]["cp"] == "cp1252":
            x["spec"].update(unicode=False, strings={k: G.text(rng, "cp1252", 60, plain=0.2) for k in M.STRING_KEYS})
            x["faults"] = []
    hist = []
    for _ in range(rng.choice([3, 6, 12, 25, 40])):
        i = rng.randrange(n)
        r = rng.random()
        if r < 0.58:
            op = rng.choice(OPS + (["text", "text_all"] if rng.random() < 0.15 else []))
            hist.append(["do", i, op, rng.random() < 0.4])
        elif r < 0.68:
            hist.append(["begin", i, rng.choice(["targets", "extras"]), rng.randrange(4)])
        elif r < 0.75:
            hist.append(["advance", i, rng.randrange(3), rng.randrange(1, 4)])
        elif r < 0.82:
            hist.append(["nested", i, rng.randrange(3)])
        elif r < 0.9:
            hist.append(["spoil", i, rng.choice(["targets", "strings", "extras", "link_flags", "file_flags", "extra_dict", "item"])])
        elif r < 0.95:
            hist.append(["reopen", i])
        else:
            hist.append(["twin", i])
    return {"links": links, "history": hist, "pristine": rng.random() < 0.1}


def spoil(x, depth=0):
    """A caller that modifies everything it was given."""
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k], depth + 1)
        for k in list(x)[::2]:
            del x[k]
        for k in list(x):
            x[k] = "spoiled"
        x["spoiled"] = True
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        x.reverse()
        x.append("spoiled")
        if len(x) > 2:
            del x[0]


def outcome(fn, *a):
    st, v = host.attempt(fn, *a)
    if st == "err":
        return st, "%s: %s" % (type(v).__name__, v)
    return st, copy.deepcopy(v)


def do_spoil(lnk, what):
    if what == "targets":
        if lnk.targets:
            spoil(lnk.targets.as_list())
    elif what == "strings":
        spoil(lnk.string_data.as_dict())
    elif what == "extras":
        spoil(lnk.extras.as_dict())
    elif what == "link_flags":
        spoil(lnk.header.link_flags())
    elif what == "file_flags":
        spoil(lnk.header.file_flags())
    elif what == "extra_dict":
        for e in lnk.extras:
            spoil(e.as_dict())
    elif what == "item":
        for t in lnk.targets or ():
            spoil(t.as_item())


def run(scn):
    res = Result()
    links, data = [], []
    for x in scn["links"]:
        m = M.build(x["spec"])
        links.append(m)
        data.append(disk.apply(m.data, x["faults"]))
        for f in x["faults"]:
            res.faults["stored: " + f[0]] += 1

    def alone(i, op):
        """The first report of the link in a process of its own."""
        out = engine.child(lambda: pickle.dumps(outcome(lambda: host.capture(fresh(i), op))), 60)
        if not isinstance(out, bytes):
            raise RuntimeError("the reference process: %s" % out)
        return pickle.loads(out)

    def fresh(i):
        cp = scn["links"][i].get("as_cp", links[i].cp)
        return host.open_link(data[i], None if cp == DEFAULT else cp, scn["links"][i]["terminal"])

    def reference(i, op):
        if scn.get("pristine"):
            return alone(i, op)
        return outcome(lambda: host.capture(fresh(i), op))

    ref = {}
    with host.Recorder():
        if scn.get("pristine"):
            for e in scn["history"]:
                if e[0] == "do" and (e[1], e[2]) not in ref:
                    ref[e[1], e[2]] = reference(e[1], e[2])
        opened, iters = [], {}
        for i in range(len(links)):
            st, v = host.attempt(fresh, i)
            opened.append(v if st == "ok" else None)
        # Only what a fresh copy reports first is a reference.
        for e in scn["history"]:
            if e[0] == "do" and (e[1], e[2]) not in ref and opened[e[1]] is not None:
                ref[e[1], e[2]] = reference(e[1], e[2])
        for n, e in enumerate(scn["history"]):
            i = e[1]
            lnk = opened[i]
            if lnk is None:
                continue
            k = e[0]
            res.counts[k] += 1
            if k == "do":
                got = outcome(host.capture, lnk, e[2])
                want = ref[i, e[2]]
                if got != want:
                    res.bad("changed", "step %d, %s of link %d: %s" % (n, e[2], i, M.diff(want[1], got[1])))
                    break
                if got[0] == "ok" and data[i] == links[i].data and "as_cp" not in scn["links"][i]:
                    exp = {True: links[i].expected, False: M.short_of(links[i].expected)}
                    p = C.compare(e[2], got[1], exp)
                    if p:
                        res.bad("differs-from-model", "step %d, %s of link %d: %s" % (n, e[2], i, p))
                        break
                if e[3] and not host.printed(e[2]):
                    st, v = host.attempt(host.call, lnk, e[2])
                    if st == "ok":
                        spoil(v)
            elif k == "begin":
                src = (lnk.targets if e[2] == "targets" else lnk.extras)
                if src is not None:
                    it = iter(src)
                    iters.setdefault(i, []).append(it)
                    for _ in range(e[3]):
                        host.attempt(next, it, None)
            elif k == "advance":
                its = iters.get(i, [])
                if its:
                    for _ in range(e[3]):
                        host.attempt(next, its[e[2] % len(its)], None)
            elif k == "nested":
                if lnk.targets:
                    want = outcome(lambda i=i: [t.name for t in fresh(i).targets])

                    def names(depth=e[2], lnk=lnk):
                        out = []
                        for t in lnk.targets:
                            if depth:
                                for j, _ in enumerate(lnk.targets):
                                    if j == depth:
                                        break
                            for x in lnk.extras:
                                x.name()
                            out.append(t.name)
                        return out

                    got = outcome(names)
                    if got != want:
                        res.bad("changed", "step %d, nested iteration of link %d: %s" % (n, i, M.diff(want[1], got[1])))
                        break
            elif k == "spoil":
                host.attempt(do_spoil, lnk, e[2])
            elif k == "reopen":
                iters.pop(i, None)
                st, v = host.attempt(fresh, i)
                if st == "err":
                    res.bad("reopen", "step %d: link %d can no longer be opened: %s" % (n, i, host.show_exc(v)))
                    break
                opened[i] = v
            elif k == "twin":
                st, v = host.attempt(fresh, i)
                if st == "err":
                    res.bad("reopen", "step %d: link %d can no longer be opened: %s" % (n, i, host.show_exc(v)))
                    break
                spoil(v.get_json(True))
    res.key = [tuple(e[:3]) for e in scn["history"]]
    res.nontrivial = len(scn["history"]) >= 3
    return res


def valid(scn):
    n = len(scn["links"])
    return n and all(G.valid_spec(x["spec"]) and x.get("as_cp", "cp1252") in AS_CP + [DEFAULT] for x in scn["links"]) and \
        all(type(e[1]) is int and 0 <= e[1] < n for e in scn["history"])


def describe(scn):
    return ["%d. %s" % (n, e) for n, e in enumerate(scn["history"])]
