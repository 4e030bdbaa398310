"""Seeds, workers, watchdog, shrinking, replay files, known findings, evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import pickle
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_LIMIT = 40.0  # wall seconds one simulated run may take before it counts as hung
SHRINK_WALL = 75.0
MAX_MEMORY = 3 << 30


class Result:
    """What one simulated run showed."""

    def __init__(self):
        self.problems = []                      # [kind, detail]
        self.faults = collections.Counter()     # injected, by kind
        self.counts = collections.Counter()     # anything else worth counting
        self.sim_s = 0.0                        # simulated seconds
        self.key = None                         # the state or interleaving reached (hashable via repr)
        self.nontrivial = True

    def bad(self, kind, detail):
        self.problems.append([kind, str(detail)[:1500]])


def load(prop):
    return importlib.import_module("sim.checks." + prop.lower())


def scenario_for(check, seed, i, tier):
    rng = random.Random("%s/%d/%d" % (check.ID, seed, i))
    return check.gen(rng, tier)


def digest(*parts):
    return hashlib.sha256(repr(parts).encode("utf-8", "replace")).digest()[:8]


def guarded(check, scn):
    """check.run with the watchdog; whatever escapes it is an observation too."""
    from sim import host

    def alarm(*_):
        raise host.Hang()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(check, "LIMIT", RUN_LIMIT))
    res = None
    try:
        res = check.run(scn)
    except host.Hang:
        res = Result()
        res.bad("hang", "an operation did not finish within %ds" % getattr(check, "LIMIT", RUN_LIMIT))
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, SystemExit) and e.code == 77:
            raise
        res = Result()
        res.bad("unexpected", "%s\n%s" % (host.show_exc(e), "".join(traceback.format_exc()[-1200:])))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return res


# ------------------------------------------------------------------ workers


def worker(check, seed, tier, w, step, total, current, stop, deadline, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MAX_MEMORY, MAX_MEMORY))
    except (ValueError, OSError):
        pass
    agg = {"runs": 0, "keys": set(), "faults": collections.Counter(), "counts": collections.Counter(), "sim_s": 0.0,
           "capped": False}
    reported = 0
    run = Runner(check)
    for i in range(w, total, step):
        if i > stop.value:
            break
        if time.monotonic() > deadline:
            agg["capped"] = True
            break
        current[w] = i
        scn = scenario_for(check, seed, i, tier)
        res = run(scn)
        agg["runs"] += 1
        agg["faults"].update(res.faults)
        agg["counts"].update(res.counts)
        agg["sim_s"] += res.sim_s
        if res.nontrivial:
            agg["keys"].add(digest(res.key if res.key is not None else json.dumps(scn, sort_keys=True)))
        if res.problems:
            conn.send(("bad", i, res.problems))
            reported += 1
            if reported >= 3:
                break
    current[w] = -1
    run.close()
    conn.send(("done", agg))
    conn.close()


def campaign(check, seed, tier, total, jobs, wall):
    ctx = mp.get_context("fork")
    current = ctx.Array("q", [-1] * jobs, lock=False)
    stop = ctx.Value("q", total)
    deadline = time.monotonic() + wall
    procs, conns = [], {}
    for w in range(jobs):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(check, seed, tier, w, jobs, total, current, stop, deadline, b), daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns[a] = w
    bad, aggs = [], []
    since = {w: (None, time.monotonic()) for w in range(jobs)}
    limit = getattr(check, "LIMIT", RUN_LIMIT) * 1.5 + 5
    while conns:
        for c in mp.connection.wait(list(conns), timeout=1.0):
            w = conns[c]
            try:
                m = c.recv()
            except (EOFError, OSError):
                del conns[c]
                procs[w].join()
                if current[w] >= 0:
                    bad.append((current[w], [["died", "the process died (exit code %s)" % procs[w].exitcode]]))
                    stop.value = min(stop.value, current[w])
                continue
            if m[0] == "bad":
                bad.append((m[1], m[2]))
                stop.value = min(stop.value, m[1])
            else:
                aggs.append(m[1])
        now = time.monotonic()
        for c, w in list(conns.items()):
            i, t = since[w]
            if current[w] != i:
                since[w] = (current[w], now)
            elif i is not None and i >= 0 and now - t > limit:
                bad.append((i, [["hang", "the run did not finish within %ds" % limit]]))
                stop.value = min(stop.value, i)
                procs[w].kill()
                since[w] = (i, now + 1e9)
    for p in procs:
        p.join()
    return sorted(bad), aggs


# ------------------------------------------------------------------ isolated evaluation, shrinking


def needs_cold(check, scn):
    c = getattr(check, "COLD", False)
    return c(scn) if callable(c) else c


def cold(check, scn):
    """One run in a child of its own, in which the library has not been used yet."""
    out = child(lambda: pickle.dumps(guarded(check, scn)), getattr(check, "LIMIT", RUN_LIMIT) * 1.5 + 5)
    if isinstance(out, bytes):
        return pickle.loads(out)
    res = Result()
    res.bad(*out)
    return res


class Runner:
    """Makes runs; those which need a process in which the library has not been used are made in children of one that is kept clean."""

    def __init__(self, check):
        self.check, self.conn = check, None
        if callable(getattr(check, "COLD", False)):
            self.conn, end = mp.Pipe()
            self.pid = os.fork()
            if self.pid == 0:
                self.conn.close()
                try:
                    while True:
                        end.send(cold(check, end.recv()))
                except (EOFError, OSError):
                    pass
                finally:
                    os._exit(0)
            end.close()

    def __call__(self, scn):
        if not needs_cold(self.check, scn):
            return guarded(self.check, scn)
        if self.conn is None:
            return cold(self.check, scn)
        self.conn.send(scn)
        return self.conn.recv()

    def close(self):
        if self.conn is not None:
            self.conn.close()
            os.waitpid(self.pid, 0)


def isolated(check, scns, limit=None):
    """Problems of the last scenario when all are run in order in a fresh child of this (clean) process."""

    def job():
        for s in scns:
            res = guarded(check, s)
        return pickle.dumps(res.problems)

    out = child(job, (limit or getattr(check, "LIMIT", RUN_LIMIT) * 1.5 + 5) + 0.02 * len(scns))
    return pickle.loads(out) if isinstance(out, bytes) else [list(out)]


def child(job, limit):
    """Bytes returned by job() in a forked child, or [kind, detail]."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (MAX_MEMORY, MAX_MEMORY))
            except (ValueError, OSError):
                pass
            out = job()
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    end = time.monotonic() + limit
    hung = False
    with os.fdopen(r, "rb", 0) as f:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not mp.connection.wait([f], timeout=left):
                hung = True
                os.kill(pid, signal.SIGKILL)
                break
            b = f.read(1 << 20)
            if not b:
                break
            out += b
    _, status = os.waitpid(pid, 0)
    if hung:
        return ["hang", "the run did not finish within %ds" % limit]
    if not out:
        return ["died", "the process died (status %d)" % status]
    return out


def kinds(problems):
    return {p[0] for p in problems}


def simpler(x, path=()):
    """Simpler variants of a JSON value, the boldest first."""
    if isinstance(x, list):
        n = len(x)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                yield x[:a] + x[a + size:]
            size //= 2
        for i, v in enumerate(x):
            for s in simpler(v):
                yield x[:i] + [s] + x[i + 1:]
    elif isinstance(x, dict):
        for k, v in x.items():
            if v is not None and not isinstance(v, (bool, int, float)):
                yield {**x, k: None}
        for k in x:
            yield {a: b for a, b in x.items() if a != k}
        for k, v in x.items():
            for s in simpler(v):
                yield {**x, k: s}
    elif isinstance(x, str):
        n = len(x)
        if n:
            yield ""
            if n % 2 == 0 and all(c in "0123456789abcdef" for c in x):
                yield "00" * (n // 2)
            for size in (n // 2, 2, 1):
                if 0 < size < n:
                    yield x[:-size]
                    yield x[size:]
            if set(x) != {"a"}:
                yield "a" * n
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        for s in (0, 1, x // 2, x - 1):
            if 0 <= s < abs(x):
                yield s
    elif isinstance(x, float):
        if x:
            yield 0.0


def weight(x):
    return len(json.dumps(x))


def shrink(check, prelude, scn, want):
    """Greedy minimisation: accept any simpler scenario that fails with one of the same kinds."""
    end = time.monotonic() + SHRINK_WALL
    evals = 0
    ok = getattr(check, "valid", None)
    progress = True
    hung = want & {"hang", "died"}
    while progress and time.monotonic() < end and not hung:
        progress = False
        skip = 0
        while True:
            done = True
            for n, cand in enumerate(simpler(scn)):
                if n < skip:
                    continue
                if time.monotonic() > end:
                    break
                if weight(cand) > weight(scn):
                    continue
                try:
                    if ok and not ok(cand):
                        continue
                except Exception:  # noqa: BLE001 - not a well-formed scenario
                    continue
                evals += 1
                got = kinds(isolated(check, prelude + [cand]))
                if got & want and "unexpected" not in got:
                    scn, progress, done, skip = cand, True, False, max(0, n - 3)
                    break
            if done:
                break
    return scn, evals


def history(check, seed, tier, i, jobs, want):
    """The run failed only after earlier runs of its worker: find which."""
    before = list(range(i % jobs, i, jobs))
    target = scenario_for(check, seed, i, tier)

    def fails(idx):
        return bool(kinds(isolated(check, [scenario_for(check, seed, j, tier) for j in idx] + [target])) & want)

    n = 1
    while True:
        idx = before[-n:]
        if fails(idx):
            break
        if n >= len(before):
            return None
        n *= 4
    end = time.monotonic() + SHRINK_WALL
    size = max(1, len(idx) // 2)
    while size >= 1 and time.monotonic() < end:
        a = 0
        while a < len(idx) and time.monotonic() < end:
            cand = idx[:a] + idx[a + size:]
            if fails(cand):
                idx = cand
            else:
                a += size
        size //= 2
    return [scenario_for(check, seed, j, tier) for j in idx]


def shrink_prelude(check, prelude, scn, want):
    end = time.monotonic() + SHRINK_WALL / 2
    for p in range(len(prelude)):
        for _ in range(200):
            for cand in simpler(prelude[p]):
                if time.monotonic() > end:
                    return prelude
                try:
                    if hasattr(check, "valid") and not check.valid(cand):
                        continue
                except Exception:  # noqa: BLE001
                    continue
                new = prelude[:p] + [cand] + prelude[p + 1:]
                if kinds(isolated(check, new + [scn])) & want:
                    prelude = new
                    break
            else:
                break
    return prelude


# ------------------------------------------------------------------ replay


def fresh_env(**kw):
    env = dict(os.environ)
    env.update(kw)
    return env


def replay_cmd(prop, path):
    return [sys.executable, "-m", "sim.engine", prop, "--replay", path]


def do_replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    check = load(prop)
    problems = isolated(check, d.get("prelude", []) + [d["scenario"]])
    if problems:
        for k, t in problems:
            print("  %s: %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("replay of %s: no violation" % path)
    return 0


def write_replay(check, seed, tier, i, prelude, scn, problems, original):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (check.ID, seed, i))
    doc = {"property": check.ID, "seed": seed, "run": i, "tier": tier, "problems": problems, "prelude": prelude,
           "scenario": scn, "trace": describe(check, scn), "unminimised": original if weight(original) < 20000 else None}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def describe(check, scn):
    try:
        return check.describe(scn) if hasattr(check, "describe") else None
    except Exception:  # noqa: BLE001
        return None


# ------------------------------------------------------------------ known findings


def known(prop):
    """Listed findings: {"property","match":{...scenario digest or problem text...},"what"}"""
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def confirm_known(check, entries):
    """Print a KNOWN-FINDING line for each listed finding that still fails."""
    live = []
    for k in entries:
        problems = isolated(check, [k["scenario"]])
        if problems:
            print("KNOWN-FINDING: property=%s %s" % (check.ID, k["what"]))
            live.append(k)
    return live


def covered(k, problems):
    """A problem is the listed finding only if its kind and its identifying text are."""
    return all(p[0] == k["kind"] and k["text"] in p[1] for p in problems)


# ------------------------------------------------------------------ main


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--replay")
    ap.add_argument("--digest", help="print a digest of the outcome of these run numbers (comma separated)")
    a = ap.parse_args()
    # Everything any simulated run writes stays below one directory, which goes at the end.
    tempfile.tempdir = tempfile.mkdtemp(prefix="lnk-sim-")
    try:
        return decide(a)
    finally:
        shutil.rmtree(tempfile.tempdir, ignore_errors=True)


def decide(a):
    prop = a.property.upper()
    if a.replay:
        return do_replay(prop, a.replay)
    try:
        check = load(prop)
    except BaseException as e:  # noqa: BLE001
        # The library cannot even be imported or has lost its public entry points.
        return broken(prop, a, e)
    if a.digest:
        run = Runner(check)
        for i in a.digest.split(","):
            scn = scenario_for(check, a.seed, int(i), a.tier)
            res = run(scn)
            print(i, digest(res.key, res.problems, sorted(res.faults.items()), sorted(res.counts.items()), res.sim_s).hex())
        run.close()
        return 0
    return sweep(check, a)


def broken(prop, a, e):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-import.json" % prop)
    text = "".join(traceback.format_exception(e))
    with open(path, "w") as f:
        json.dump({"property": prop, "problems": [["import", text]], "scenario": None}, f)
    print(text)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def sweep(check, a):
    t0 = time.monotonic()
    total = a.runs or check.RUNS[a.tier]
    wall = 420.0 if a.tier == "quick" else 780.0
    entries = known(check.ID)
    live = confirm_known(check, entries)
    bad, aggs = campaign(check, a.seed, a.tier, total, a.jobs, wall)
    runs = sum(g["runs"] for g in aggs)
    keys = set()
    faults, counts, sim_s = collections.Counter(), collections.Counter(), 0.0
    for g in aggs:
        keys |= g["keys"]
        faults += g["faults"]
        counts += g["counts"]
        sim_s += g["sim_s"]
    searched = time.monotonic() - t0
    violations = []
    flaky = []
    for i, problems in bad:
        if violations:
            break
        if problems and any(covered(k, problems) for k in live):
            counts["known finding met again"] += 1
            continue
        v = settle(check, a, i, problems, flaky)
        if v:
            violations.append(v)
    det = determinism(check, a, runs) if not violations else None
    wall_s = time.monotonic() - t0
    evidence(check, a, total, runs, keys, faults, counts, sim_s, searched, wall_s, violations, flaky, det,
             any(g["capped"] for g in aggs))
    for path, problems in violations:
        for k, t in problems[:5]:
            print("  %s: %s" % (k, t[:1000]))
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
    if violations:
        return 1
    print("%s held: %d simulated runs, %d distinct, %d faults injected, %.1fs" % (
        check.ID, runs, len(keys), sum(faults.values()), wall_s))
    return 0


def settle(check, a, i, problems, flaky):
    """Confirm a failing run in a fresh process, minimise it, write and re-run the replay file."""
    scn = scenario_for(check, a.seed, i, a.tier)
    want = kinds(problems)
    prelude = []
    got = isolated(check, [scn])
    if not kinds(got) & want:
        if got:
            want = kinds(got)
        else:
            prelude = history(check, a.seed, a.tier, i, a.jobs, want)
            if prelude is None:
                flaky.append([i, problems])
                prelude = []
                if want <= {"hang", "died"}:  # an overloaded machine, not the code
                    return None
    original = scn
    if "unexpected" not in want or len(want) > 1:
        want.discard("unexpected")
    scn, _ = shrink(check, prelude, scn, want) if not flaky or flaky[-1][0] != i else (scn, 0)
    if prelude:
        prelude = shrink_prelude(check, prelude, scn, want)
    final = isolated(check, prelude + [scn])
    if not final:
        scn, final = original, isolated(check, prelude + [original])
    path = write_replay(check, a.seed, a.tier, i, prelude, scn, final or problems, original)
    p = subprocess.run(replay_cmd(check.ID, path), env=fresh_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       cwd=ROOT, text=True)
    if p.returncode != 1:
        print("note: the replay of run %d did not fail again; the failing sweep is repeated with --seed %d" % (i, a.seed))
    return path, final or problems


def determinism(check, a, runs):
    """Re-execute a few runs in fresh interpreters under other hash seeds: same outcome digests?"""
    if getattr(check, "NO_DIGEST", False) or not runs:
        return None
    idx = ",".join(str(i) for i in sorted({runs * k // 12 for k in range(12)}))
    outs = []
    for hs in ("0", "4242"):
        p = subprocess.run([sys.executable, "-m", "sim.engine", check.ID, "--tier", a.tier, "--seed", str(a.seed),
                            "--digest", idx], env=fresh_env(PYTHONHASHSEED=hs), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, cwd=ROOT, text=True)
        outs.append(p.stdout.split("\n")[:-1])
    same = sum(x == y for x, y in zip(*outs))
    return {"runs_repeated_in_two_fresh_processes": len(outs[0]), "identical": same}


def evidence(check, a, total, runs, keys, faults, counts, sim_s, searched, wall_s, violations, flaky, det, capped):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    samples = []
    for i in (0, 1, 2):
        scn = scenario_for(check, a.seed, i, a.tier)
        samples.append(scn if weight(scn) < 4000 else {"abridged": json.dumps(scn)[:3500]})
    doc = {
        "property": check.ID, "tier": a.tier, "seed": a.seed, "level": check.LEVEL, "wall_s": round(wall_s, 2),
        "violations": len(violations),
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(keys), "rule": check.RULE, "samples": samples,
            "planned_runs": total, "stopped_by_wall_limit": capped,
            "runs_per_hour": int(runs / max(searched, 1e-6) * 3600),
            "seeds_per_hour": int(runs / max(searched, 1e-6) * 3600),
            "simulated_seconds": round(sim_s, 3),
            "faults_injected": dict(sorted(faults.items())),
            "observed": dict(sorted(counts.items())),
            "distinct_measure": check.MEASURE,
            "real_components": check.REAL, "stubbed_components": check.STUB,
            "determinism": det, "unreproduced": flaky[:3],
        },
        "assumptions": check.ASSUME,
    }
    with open(os.path.join(d, check.ID + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
