"""C16: one open link can be reported from many threads at once."""
from sim import conc, disk, gen as G, host, model as M, sched
from sim.checks import common as C
from sim.engine import Result

ID = "C16"
LEVEL = "exploration"
COLD = True
RUNS = {"quick": 6000, "thorough": 80000}
RULE = ("2..4 threads make 1..5 reports, iterations (complete or partial) or accesses on one or two open links they share (a quarter "
        "damaged); a seeded schedule hands a single baton over at chosen lines or instructions of library code; every call has to "
        "return what it returns alone in a process of its own and, undamaged, what the model says; non-trivial: at least 2 hand-overs")
MEASURE = "distinct sequences of (thread, function, position) at which the schedule switched"
REAL = C.REAL + ["threads (one runs at a time)"]
STUB = ["the thread scheduler (seeded baton at library lines and instructions)", "standard output (kept apart by thread)"]
ASSUME = ["the interpreter switches threads between instructions (GIL); switches inside C code that releases the GIL are not simulated"]


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    links = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        s = G.gen_spec(rng, big=0.01, small=rng.random() < 0.85)
        x = M.build(s)
        links.append({"spec": s, "faults": [disk.overwrite(rng, x, 76)] if rng.random() < 0.25 else [], "terminal": rng.random() < 0.8})
    same = conc.pick(rng) if rng.random() < 0.4 else None
    threads = [[[rng.randrange(len(links)), same if same and rng.random() < 0.8 else conc.pick(rng)]
                for _ in range(rng.choice([1, 1, 2, 3, 5]))] for _ in range(n)]
    s, cycle = sched.schedule(rng, 800, n)
    return {"links": links, "threads": threads, "schedule": s, "cycle": cycle,
            "grain": "instruction" if rng.random() < 0.2 else "line", "around": rng.random() < 0.1}


def run(scn):
    res = Result()
    links, data = [], []
    for j in scn["links"]:
        m = M.build(j["spec"])
        b = disk.apply(m.data, j["faults"])
        data.append((b, m.cp, j["terminal"]))
        links.append(m if b == m.data else None)
        for f in j["faults"]:
            res.faults["stored: " + f[0]] += 1
    ops = sorted({(i, op) for t in scn["threads"] for i, op in t})
    with conc.quiet(), conc.Router() as router:

        def reference():
            return {(i, op): conc.do(router, host.open_link(*data[i]), op) for i, op in ops}

        want = conc.alone(reference)
        opened = [host.open_link(*d) for d in data]

        def work(calls):
            return [conc.do(router, opened[i], op) for i, op in calls]

        t = sched.Threads([lambda c=c: work(c) for c in scn["threads"]], scn["schedule"], scn["cycle"], scn["grain"], scn["around"])
        got = t.run()
    for i, (g, calls) in enumerate(zip(got, scn["threads"])):
        if g[0] == "err":
            res.bad("raised", "thread %d: %s" % (i, host.show_exc(g[1])))
            continue
        for (k, op), a in zip(calls, g[1]):
            w = want[k, op]
            if a != w:
                res.bad("differs", "thread %d, %s of link %d: %s" % (i, op, k, M.diff(w, a)))
                continue
            if links[k] is not None:
                exp = {True: links[k].expected, False: M.short_of(links[k].expected)}
                p = C.compare(op, a[1] if not host.printed(op) else a[2], exp) if a[0] == "ok" else "raised " + a[1]
                if p:
                    res.bad("differs-from-model", "thread %d, %s: %s" % (i, op, p))
    res.faults["hand-over"] += t.switches
    res.counts["events"] += t.events
    res.counts["unstuck from real locks"] += t.stuck
    res.key = t.trace
    res.nontrivial = t.switches >= 2
    return res


def valid(scn):
    n = len(scn["links"])
    return n >= 1 and len(scn["threads"]) >= 2 and all(G.valid_spec(j["spec"]) for j in scn["links"]) and \
        all(type(i) is int and 0 <= i < n and op in conc.OPS + ["text", "text_all"] for t in scn["threads"] for i, op in t) and \
        scn["grain"] in ("line", "instruction") and type(scn["around"]) is bool and type(scn["cycle"]) is bool and \
        conc.valid_schedule(scn["schedule"], 0)


def describe(scn):
    return ["thread %d: %s" % (i, ["%s of link %d" % (op, k) for k, op in t]) for i, t in enumerate(scn["threads"])] + [
        "schedule (%s events to wait, thread that runs next)%s: %s" % (
            scn["grain"], ", repeated" if scn["cycle"] else "", scn["schedule"])]
