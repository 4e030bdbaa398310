"""C15: links opened and reported concurrently do not affect each other."""
from sim import conc, disk, gen as G, host, model as M, sched
from sim.checks import common as C
from sim.engine import Result

ID = "C15"
LEVEL = "exploration"
COLD = True
RUNS = {"quick": 5000, "thorough": 60000}
RULE = ("2..4 threads each open 1..2 seeded links of their own (a quarter damaged, some refused) and make 1..4 reports or accesses, in a "
        "process where the library has not been used; a seeded schedule hands a single baton over at chosen lines or instructions "
        "of library code; every outcome has to equal that of the thread alone in a process of its own and, undamaged, the model; "
        "non-trivial: at least 2 hand-overs")
MEASURE = "distinct sequences of (thread, function, position) at which the schedule switched"
REAL = C.REAL + ["threads (one runs at a time)"]
STUB = ["the thread scheduler (seeded baton at library lines and instructions)", "standard output (kept apart by thread)"]
ASSUME = ["the interpreter switches threads between instructions (GIL); switches inside C code that releases the GIL are not simulated"]


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    threads = []
    same = [G.gen_spec(rng, big=0, small=True)] if rng.random() < 0.25 else None
    if same and rng.random() < 0.4:
        same = list(G.sibling(rng, same[0]))
    for _ in range(n):
        jobs = []
        for _ in range(rng.choice([1, 1, 2])):
            s = rng.choice(same) if same else G.gen_spec(rng, big=0.01, small=rng.random() < 0.9)
            if not same and rng.random() < 0.15:
                s = G.dense(rng, s)
            x = M.build(s)
            r = rng.random()
            faults = [disk.overwrite(rng, x, 76)] if r < 0.2 else [["cut", rng.randrange(1, 76)]] if r < 0.25 else []
            jobs.append({"spec": s, "faults": faults, "terminal": rng.random() < 0.8,
                         "ops": [conc.pick(rng) for _ in range(rng.choice([1, 1, 2, 4]))]})
        threads.append(jobs)
    s, cycle = sched.schedule(rng, 1500, n)
    return {"threads": threads, "schedule": s, "cycle": cycle, "grain": "instruction" if rng.random() < 0.2 else "line",
            "around": rng.random() < 0.1}


def work(router, jobs, data):
    out = []
    for j, (b, cp) in zip(jobs, data):
        st, lnk = host.attempt(host.open_link, b, cp, j["terminal"])
        if st == "err":
            out.append(["refused", type(lnk).__name__])
            continue
        out.append([conc.do(router, lnk, op) for op in j["ops"]])
    return out


def run(scn):
    res = Result()
    data, links = [], []
    for jobs in scn["threads"]:
        row, lrow = [], []
        for j in jobs:
            m = M.build(j["spec"])
            b = disk.apply(m.data, j["faults"])
            row.append((b, m.cp))
            lrow.append(m if b == m.data else None)
            for f in j["faults"]:
                res.faults["stored: " + f[0]] += 1
        data.append(row)
        links.append(lrow)
    with conc.quiet(), conc.Router() as router:
        want = [conc.alone(lambda jobs=jobs, row=row: work(router, jobs, row)) for jobs, row in zip(scn["threads"], data)]
        t = sched.Threads([lambda jobs=jobs, row=row: work(router, jobs, row) for jobs, row in zip(scn["threads"], data)],
                          scn["schedule"], scn["cycle"], scn["grain"], scn["around"])
        got = t.run()
    for i, (g, w) in enumerate(zip(got, want)):
        if g[0] == "err":
            res.bad("raised", "thread %d: %s" % (i, host.show_exc(g[1])))
            continue
        for k, (a, b) in enumerate(zip(g[1], w)):
            if a != b:
                res.bad("differs", "thread %d, link %d, %s: %s" % (i, k, scn["threads"][i][k]["ops"], M.diff(b, a)))
                continue
            m = links[i][k]
            if m is not None and a and a[0] != "refused":
                exp = {True: m.expected, False: M.short_of(m.expected)}
                for op, r in zip(scn["threads"][i][k]["ops"], a):
                    p = C.compare(op, r[1] if not host.printed(op) else r[2], exp) if r[0] == "ok" else "raised " + r[1]
                    if p:
                        res.bad("differs-from-model", "thread %d, %s: %s" % (i, op, p))
    res.faults["hand-over"] += t.switches
    res.counts["events"] += t.events
    res.counts["unstuck from real locks"] += t.stuck
    res.key = t.trace
    res.nontrivial = t.switches >= 2
    return res


def valid(scn):
    for jobs in scn["threads"]:
        for j in jobs:
            if not G.valid_spec(j["spec"]) or not set(j["ops"]) <= set(conc.OPS + ["text", "text_all"]):
                return False
    return len(scn["threads"]) >= 2 and scn["grain"] in ("line", "instruction") and type(scn["around"]) is bool and \
        type(scn["cycle"]) is bool and conc.valid_schedule(scn["schedule"], 0)


def describe(scn):
    out = ["thread %d: %s" % (i, ["%d bytes%s: %s" % (len(M.build(j["spec"]).data), ", damaged" if j["faults"] else "", j["ops"])
                                  for j in jobs]) for i, jobs in enumerate(scn["threads"])]
    return out + ["schedule (%s events to wait, thread that runs next)%s: %s" % (
        scn["grain"], ", repeated" if scn["cycle"] else "", scn["schedule"])]
