"""C23: a process forked at any moment can go on with its links."""
import codecs
import importlib
import os
import pickle
import pkgutil
import select
import signal
import time

from sim import conc, disk, gen as G, host, model as M, sched
from sim.checks import common as C
from sim.engine import Result

ID = "C23"
LEVEL = "exploration"
COLD = True
LIMIT = 60.0
RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("2..3 threads open and report links, shared or their own, under a seeded schedule (one baton, handed over at lines or "
        "instructions of library code); one of them forks the process between two of its calls while the others are anywhere in theirs; "
        "the child, in which only the forking thread lives on, reports the open links and opens new ones; every result in child and "
        "parent has to equal that of the call alone in a process of its own and, undamaged, the model, within 10 s; non-trivial: a "
        "child was forked while another thread was inside an operation")
MEASURE = "distinct (operations of the parked threads and where they were, operations of the child) tuples"
REAL = C.REAL + ["threads (one runs at a time)", "fork"]
STUB = ["the thread scheduler (seeded baton at library lines and instructions)", "standard output (kept apart by thread)"]
ASSUME = ["switches inside C code that releases the GIL are not simulated",
          "modules and codecs are loaded before (the interpreter's import locks do not survive a fork)"]
WAIT = 10.0


def load():
    """Everything that may be imported on demand; the interpreter's import locks do not survive a fork."""
    for m in pkgutil.walk_packages(host.LnkParse3.__path__, "LnkParse3."):
        if not m.name.endswith("__main__"):
            importlib.import_module(m.name)
    for cp in M.CODEPAGES + ["utf-16le", "utf-8", "ascii"]:
        codecs.lookup(cp)


load()


def calls(rng, n, k):
    return [[rng.randrange(n), "open" if rng.random() < 0.3 else conc.pick(rng)] for _ in range(k)]


def gen(rng, tier):
    n = rng.choice([2, 2, 3])
    links = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = G.gen_spec(rng, big=0.01, small=rng.random() < 0.85)
        x = M.build(s)
        links.append({"spec": s, "faults": [disk.overwrite(rng, x, 76)] if rng.random() < 0.3 else [], "terminal": rng.random() < 0.8})
    if len(links) > 1 and rng.random() < 0.2:
        a, b = G.sibling(rng, links[0]["spec"])
        links[0].update(spec=a, faults=[])
        links[1].update(spec=b, faults=[])
    threads = [calls(rng, len(links), rng.choice([1, 2, 3, 5])) for _ in range(n)]
    for _ in range(rng.choice([1, 1, 2])):
        t = threads[rng.randrange(n)]
        t.insert(rng.randrange(len(t) + 1), [-1, calls(rng, len(links), rng.choice([1, 2, 3]))])
    late = rng.random() < 0.3
    if late and rng.random() < 0.5:  # fork while the others make the first use of the library
        t = next(t for t in threads if any(i < 0 for i, _ in t))
        while t[0][0] >= 0:
            del t[0]
    s, cycle = sched.schedule(rng, 800, n)
    return {"links": links, "threads": threads, "schedule": s, "cycle": cycle,
            "grain": "instruction" if rng.random() < 0.2 else "line", "around": rng.random() < 0.15,
            "late": late}


def run(scn):
    res = Result()
    models, data = [], []
    for j in scn["links"]:
        m = M.build(j["spec"])
        b = disk.apply(m.data, j["faults"])
        data.append((b, m.cp, j["terminal"]))
        models.append(m if b == m.data else None)
        for f in j["faults"]:
            res.faults["stored: " + f[0]] += 1
    ops = sorted({(i, op) for t in scn["threads"] for i, op in t if i >= 0} |
                 {(i, op) for t in scn["threads"] for k, c in t if k < 0 for i, op in c})
    children, keys = [], []
    with conc.quiet(), conc.Router() as router:

        def do(i, op, lnk):
            if op == "open":
                st, v = host.attempt(lambda: host.open_link(*data[i]).get_json(True))
                return ["ok", v, ""] if st == "ok" else ["err", type(v).__name__, ""]
            return conc.do(router, opened[i] if lnk is None else lnk, op)

        want = conc.alone(lambda: {(i, op): do(i, op, host.open_link(*data[i])) for i, op in ops})
        opened = conc.Opened(data) if scn["late"] else [host.open_link(*d) for d in data]

        def fork(me, what):
            inside = [at[j] for j in range(len(at)) if j != me and at[j]]
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.setitimer(signal.ITIMER_REAL, WAIT + 2)
                    sim.stop()
                    os.close(r)
                    out = pickle.dumps([do(i, op, None) for i, op in what])
                    with os.fdopen(w, "wb") as f:
                        f.write(out)
                finally:
                    os._exit(0)
            os.close(w)
            out, end = b"", time.monotonic() + WAIT
            while True:
                if not select.select([r], [], [], max(0, end - time.monotonic()))[0]:
                    os.kill(pid, signal.SIGKILL)
                    out = None
                    break
                b = os.read(r, 1 << 20)
                if not b:
                    break
                out += b
            os.close(r)
            os.waitpid(pid, 0)
            children.append((inside, what, pickle.loads(out) if out else out))
            keys.append((inside, [op for _, op in what]))
            return None

        at = [None] * len(scn["threads"])

        def work(me, todo):
            out = []
            for i, op in todo:
                if i < 0:
                    out.append(fork(me, op))
                    continue
                at[me] = op
                out.append(do(i, op, None))
                at[me] = None
            return out

        sim = sched.Threads([lambda me=me, t=t: work(me, t) for me, t in enumerate(scn["threads"])], scn["schedule"], scn["cycle"],
                            scn["grain"], scn["around"])
        got = sim.run()

    def judge(who, i, op, a):
        w = want[i, op]
        if a != w:
            res.bad("differs", "%s, %s of link %d: %s" % (who, op, i, M.diff(w, a)))
        elif models[i] is not None:
            exp = {True: models[i].expected, False: M.short_of(models[i].expected)}
            p = C.compare("dict_all" if op == "open" else op, a[1] if not host.printed(op) else a[2], exp) if a[0] == "ok" else \
                "raised " + a[1]
            if p:
                res.bad("differs-from-model", "%s, %s of link %d: %s" % (who, op, i, p))

    for inside, what, out in children:
        where = "child forked while others were in %s" % (inside or "no operation")
        if out is None:
            res.bad("stuck", "%s: %s not done within %d s" % (where, what, WAIT))
        elif out == b"":
            res.bad("died", "%s: it died in %s" % (where, what))
        else:
            for (i, op), a in zip(what, out):
                judge(where, i, op, a)
    for n, (g, todo) in enumerate(zip(got, scn["threads"])):
        if g[0] == "err":
            res.bad("raised", "thread %d: %s" % (n, host.show_exc(g[1])))
            continue
        for (i, op), a in zip(todo, g[1]):
            if i >= 0:
                judge("thread %d of the parent" % n, i, op, a)
    res.faults["fork"] += len(children)
    res.faults["threads lost in a child, inside an operation"] += sum(len(c[0]) for c in children)
    res.faults["hand-over"] += sim.switches
    res.counts["runs whose threads open the links"] += scn["late"]
    res.counts["unstuck from real locks"] += sim.stuck
    res.key = (keys, sim.trace[-3:])
    res.nontrivial = any(c[0] for c in children)
    return res


def valid(scn):
    n = len(scn["links"])

    def call(c):
        return type(c[0]) is int and 0 <= c[0] < n and c[1] in conc.OPS + ["text", "text_all", "open"]

    return n >= 1 and len(scn["threads"]) >= 2 and all(G.valid_spec(j["spec"]) for j in scn["links"]) and \
        all(call(c) if c[0] != -1 else all(call(x) for x in c[1]) for t in scn["threads"] for c in t) and \
        scn["grain"] in ("line", "instruction") and type(scn["around"]) is bool and type(scn["late"]) is bool and type(scn["cycle"]) is bool and \
        conc.valid_schedule(scn["schedule"], 0)


def describe(scn):
    return ["thread %d: %s" % (i, ["%s of link %d" % (op, k) if k >= 0 else "fork; the child: %s" % op for k, op in t])
            for i, t in enumerate(scn["threads"])] + [
        "schedule (%s events to wait, thread that runs next)%s: %s" % (
            scn["grain"], ", repeated" if scn["cycle"] else "", scn["schedule"])]
