"""C09: a failed read is never mistaken for a short link."""
from sim import disk, gen as G, host, model as M, stream
from sim.checks import common as C
from sim.engine import Result

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 200000, "thorough": 3000000}
RULE = ("a seeded link is read from a simulated source which fails at a seeded read call (20 kinds: device errors, timeouts, closed "
        "source, exceptions from signal handlers and codecs), up to three times, then works; the failing call has to raise the "
        "very same error object, the source has to stay open, and the retry has to give the exact report; non-trivial: a fault fired")
MEASURE = "distinct (source kind, fault kind, reads before the fault, size class, number of faults) tuples"
REAL = C.REAL + ["io layers (CPython)"]
STUB = ["the device under the source (simulated raw stream)", "time spent in delays (simulated clock)"]
ASSUME = ["gzip and zip layers are not used here: they replace some errors by their own"]
KINDS = ["raw", "buffered", "small", "pipe", "duck", "direct"]


class Direct:
    """A source whose read() itself fails."""

    def __init__(self, data, plan):
        self.data, self.plan, self.raised, self.fired, self.clock = data, list(plan), [], {"fail": 0}, 0.0
        self.closed = False
        self.at = 0

    def read(self, n=-1):
        while self.plan:
            p = self.plan.pop(0)
            if isinstance(p, list) and p[0] == "fail":
                self.fired["fail"] += 1
                e = stream.fault(p[1])
                self.raised.append(e)
                raise e
        end = len(self.data) if n is None or n < 0 else min(self.at + n, len(self.data))
        b, self.at = self.data[self.at:end], end
        return b

    def seek(self, n):
        self.at = n

    def close(self):
        self.closed = True


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.015, small=rng.random() < 0.7)
    n = len(M.build(spec).data)
    kind = rng.choice(KINDS)
    plans = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        p = stream.chunks(rng, n, rng.choice([0, 1, 2, 3, 10]))
        plans.append(p + [["fail", rng.choice(stream.READ_FAULTS)]])
    return {"spec": spec, "kind": kind, "plans": plans, "chunk": rng.choice([1, 3, 76, 512, 8192]) if n < 20000 else 8192,
            "again": stream.chunks(rng, n, rng.choice([0, 3])), "terminal": rng.random() < 0.8}


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    kind = scn["kind"]
    n = 0

    def source(plan):
        if kind == "direct":
            d = Direct(link.data, plan)
            return d, d
        return stream.wrap(kind, link.data, plan, scn["chunk"])

    handle, src = source(scn["plans"][0])
    with host.Recorder():
        for plan in scn["plans"]:
            src.plan = list(plan)
            before = len(src.raised)
            st, v = host.attempt(host.open_link, None, link.cp, scn["terminal"], handle)
            if len(src.raised) == before:  # the end came before the fault
                break
            n += 1
            res.faults["read fails: " + plan[-1][1]] += 1
            if st == "ok":
                res.bad("mistaken", "a link was opened although reading failed with %s after %d reads" % (
                    host.show_exc(src.raised[-1]), getattr(src, "calls", 0)))
                return res
            if v is not src.raised[-1]:
                res.bad("replaced", "reading failed with %s, but opening raised %s" % (host.show_exc(src.raised[-1]), host.show_exc(v)))
                return res
            if getattr(handle, "closed", False) or getattr(src, "closed", False):
                res.bad("closed", "the caller's source was closed after a failed read")
                return res
            if kind == "pipe":
                handle, src = source([])
            else:
                st, e = host.attempt((src if kind == "duck" else handle).seek, 0)
                if kind == "duck":
                    handle, src2 = source([])
                    src = src2
        src.plan = list(scn["again"])
        st, v = host.attempt(host.open_link, None, link.cp, scn["terminal"], handle)
        if st == "err":
            res.bad("retry", "reading again after the fault has cleared raised %s" % host.show_exc(v))
            return res
        st, d = host.attempt(v.get_json, True)
        if st == "err" or d != link.expected:
            res.bad("retry", "report after the fault has cleared: %s" % (
                host.show_exc(d) if st == "err" else M.diff(link.expected, d)))
        if getattr(handle, "closed", False):
            res.bad("closed", "the caller's source was closed")
    for k, v in src.fired.items():
        if v and k != "fail":
            res.faults[k] += v
    res.sim_s += src.clock
    res.key = (kind, [p[-1][1] for p in scn["plans"]], [len(p) for p in scn["plans"]], len(link.data).bit_length(), n)
    res.nontrivial = n > 0
    return res


def valid(scn):
    return G.valid_spec(scn["spec"]) and scn["kind"] in KINDS and scn["plans"] and scn["chunk"] > 0 and \
        all(p and p[-1][0] == "fail" for p in scn["plans"]) and \
        all(x == "eintr" or (type(x) is int and x > 0) or x[0] == "delay" for p in scn["plans"] for x in p[:-1]) and \
        all(x == "eintr" or (type(x) is int and x > 0) or x[0] == "delay" for x in scn["again"])


def describe(scn):
    return ["source %s, %d bytes" % (scn["kind"], len(M.build(scn["spec"]).data))] + ["attempt with plan %s" % p for p in scn["plans"]]
