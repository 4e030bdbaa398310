"""C12: an interrupted opening or report leaves no trace."""
from sim import conc, disk, gen as G, host, interrupt as I, model as M
from sim.checks import common as C
from sim.engine import Result

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 32000, "thorough": 420000}
RULE = ("a seeded link (a third damaged) is opened or reported while an exception is delivered at a seeded line or instruction of the "
        "library (or of yaml, json, re ... on its behalf), by an exhausted stack, by a warning turned into an error or by a failing "
        "warning hook, 1..4 times; the same exception object has to reach the caller, and later reports on the same link, and "
        "reports of links opened afterwards, have to equal those of a twin never interrupted and, undamaged, the model; in 12% of the "
        "runs the interrupted operation is the first use of the library in its process; "
        "non-trivial: an interruption was delivered")
MEASURE = "distinct (operation, function interrupted, exception kind, later operations) tuples"
REAL = C.REAL
STUB = ["the writer of links (reference model)", "the origin of the exception (signal, cancellation, allocator)"]
ASSUME = ["exceptions by which the code notes damage of the link itself (struct.error, the ValueError, LookupError and ArithmeticError "
          "families) are not used as exceptions from outside"]
OPS = host.REPORTS + host.ACCESS



def COLD(scn):
    """The interrupted operation is the first use of the library in its process."""
    return scn.get("pristine", False)


def op(rng):
    r = rng.random()
    return rng.choice(["text", "text_all"]) if r < 0.06 else rng.choice(
        ["dict", "dict_all", "json", "json_all", "target", "target_json"] + host.ACCESS) if r < 0.8 else "dict_all"


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.004, small=rng.random() < 0.8)
    link = M.build(spec)
    faults = [disk.overwrite(rng, link, 76) for _ in range(rng.choice([1, 2]))] if rng.random() < 0.35 else []
    strange = rng.random() < 0.15
    if strange:
        faults.append(disk.odd(rng, link))
    cuts = [["open" if rng.random() < 0.35 else op(rng), I.plan(rng, 0.5 if strange else 0)] for _ in range(rng.choice([1, 1, 2, 4]))]
    return {"spec": spec, "faults": faults, "terminal": rng.random() < 0.8, "cuts": cuts,
            "later": [op(rng) for _ in range(rng.choice([1, 2, 3]))], "pristine": rng.random() < 0.12}


def outcome(fn, *a):
    st, v = host.attempt(fn, *a)
    return (st, v) if st == "ok" else (st, host.show_exc(v))


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    data = disk.apply(link.data, scn["faults"])

    def fresh():
        return host.open_link(data, link.cp, scn["terminal"])

    pristine = scn.get("pristine", False)
    ops = sorted({c[0] for c in scn["cuts"]} - {"open"} | set(scn["later"]) | {"dict_all"})
    with host.Recorder():
        # In a pristine run this process has not done any of it before: references and counts are made in others.
        apart = conc.alone if pristine else lambda job: job()
        ref = apart(lambda: {o: outcome(lambda o=o: host.capture(fresh(), o)) for o in ops})
        if apart(lambda: host.attempt(fresh)[0]) == "err":
            res.nontrivial = False
            return res
        if pristine:
            res.counts["runs in a process of their own"] += 1
        lnk = None
        twin = []

        def prepared(job):
            """job(), with a twin to try things on: not here in a pristine run."""
            if not twin:
                twin.append(fresh())
            return job()

        def aside(job):
            return apart(lambda: prepared(job))

        reached = []
        for o, p in scn["cuts"]:
            if o == "open":
                out = I.perform(fresh, p, fresh, apart)
            else:
                lnk = lnk or fresh()
                out = I.perform(lambda o=o: host.capture(lnk, o), p, lambda o=o: host.capture(twin[0], o), aside)
            if out.sent is not None:
                res.faults["%s: %s" % (p[0], type(out.sent).__name__)] += 1
                reached.append((o, out.where, type(out.sent).__name__))
                if out.st == "ok":
                    res.bad("swallowed", "%s interrupted by %s at %s: it was swallowed" % (o, host.show_exc(out.sent), out.where))
                    return res
                if out.value is not out.sent:
                    res.bad("replaced", "%s interrupted by %s at %s raised %s instead" % (
                        o, host.show_exc(out.sent), out.where, host.show_exc(out.value)))
                    return res
            elif o != "open":
                got = (out.st, out.value) if out.st == "ok" else (out.st, host.show_exc(out.value))
                if got != ref[o]:
                    res.bad("later", "%s after %s: %s" % (o, reached, M.diff(ref[o][1], got[1])))
                    return res
        lnk = lnk or fresh()
        for o in scn["later"] + ["dict_all"]:
            got = outcome(host.capture, lnk, o)
            if got != ref[o]:
                res.bad("same-link", "%s of the same link after %s: %s" % (o, reached, M.diff(ref[o][1], got[1])))
                return res
        for o in ["dict_all"] + scn["later"]:
            got = outcome(lambda o=o: host.capture(fresh(), o))
            if got != ref[o]:
                res.bad("new-link", "%s of a link opened after %s: %s" % (o, reached, M.diff(ref[o][1], got[1])))
                return res
            if got[0] == "ok" and data == link.data:
                p = C.compare(o, got[1], {True: link.expected, False: M.short_of(link.expected)})
                if p:
                    res.bad("new-link", "%s of a link opened after %s: %s" % (o, reached, p))
                    return res
    res.key = (reached, scn["later"])
    res.nontrivial = bool(reached)
    return res


def valid(scn):
    return G.valid_spec(scn["spec"]) and type(scn.get("pristine", False)) is bool and set(scn["later"]) <= set(OPS) and \
        all(c[0] in OPS + ["open"] and I.valid(c[1]) for c in scn["cuts"])


def describe(scn):
    out = []
    for o, p in scn["cuts"]:
        out.append("%s interrupted: %s" % (o, {"raise": "%s at %s event %d (modulo their number)%s" % (
            p[2], p[3], p[1], ", counting yaml/json/re code too" if p[4] else ""), "stack": "%d frames of stack left" % (3 + p[1] % 40),
            "warning": "warnings are errors", "hook": "%s from the warning hook" % p[2]}[p[0]]))
    return out + ["then %s on the same link and on new ones" % scn["later"]]
