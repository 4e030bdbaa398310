"""C10: an opened link no longer depends on its source."""
import io
import mmap
import os
import tempfile

from sim import disk, gen as G, host, model as M, sched, stream
from sim.checks import common as C
from sim.engine import Result

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 110000, "thorough": 1700000}
RULE = ("a seeded link is opened from a source or caller-owned buffer; 1..4 disturbances (close, seek, truncate, overwrite, delete, "
        "scribble over the buffer) happen between and, at seeded lines of library code, during 1..4 reports; each report has to "
        "equal the undisturbed one, and the disturbance has to be possible; non-trivial: a disturbance took effect")
MEASURE = "distinct (source kind, disturbance kinds, places in library code, reports) tuples"
REAL = C.REAL + ["io, mmap layers (CPython)", "the file system (scratch directory)"]
STUB = ["the device under raw sources"]
ASSUME = ["buffers are bytes, bytearray or memoryview"]
KINDS = ["bytearray", "bytearray", "memoryview", "bytesio", "bytesio", "raw", "buffered", "pipe", "duck", "mmap", "file", "returns-bytearray"]
ACTS = ["close", "seek0", "seekend", "scribble", "scribble", "truncate", "delete", "read"]
_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), tempfile.TemporaryDirectory(prefix="lnk-c10-"))
    return os.path.join(_scratch[1].name, "a.lnk")


def gen(rng, tier):
    spec = G.gen_spec(rng, big=0.01, small=rng.random() < 0.5)
    link = M.build(spec)
    ops = [rng.choice(["dict_all", "dict", "json", "json_all", "target", "iter_targets", "header", "strings"] + ["text"] * (rng.random() < 0.1))
           for _ in range(rng.choice([1, 2, 4]))]
    acts = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        acts.append([rng.randrange(len(ops)), rng.choice([0, 0, 1, 3, 20, 100, rng.randrange(1, 700)]), rng.choice(ACTS),
                     rng.choice(["00", "ff", "41", rng.getrandbits(10)])])
    kind = rng.choice(KINDS)
    faults = [disk.overwrite(rng, link, 76)] if rng.random() < 0.25 else []
    return {"spec": spec, "faults": faults, "kind": kind, "ops": ops, "acts": acts, "terminal": rng.random() < 0.8}


class Mutable:
    """A source which hands out the very buffer it keeps."""

    def __init__(self, data):
        self.buf = bytearray(data)

    def read(self, n=-1):
        return self.buf

    def close(self):
        self.buf[:] = bytes(len(self.buf))


class Place:
    """The source of one run, and what can be done to it."""

    def __init__(self, kind, data, path):
        self.kind, self.path, self.did, self.held = kind, path, 0, None
        self.handle = self.buf = self.src = None
        self.data = data
        if kind == "bytearray":
            self.buf = bytearray(data)
        elif kind == "memoryview":
            self.buf = bytearray(data)
            self.view = memoryview(self.buf)
        elif kind == "returns-bytearray":
            self.handle = Mutable(data)
            self.buf = self.handle.buf
        elif kind == "mmap":
            self.handle = mmap.mmap(-1, len(data))
            self.handle[:] = data
        elif kind == "bytesio":
            self.handle = io.BytesIO(data)
        elif kind == "file":
            with open(path, "wb") as f:
                f.write(data)
            self.handle = open(path, "r+b")
        else:
            self.handle, self.src = stream.wrap(kind, data, [], 4096)

    def given(self):
        return self.view if self.kind == "memoryview" else self.buf

    def act(self, name, pat):
        try:
            self._act(name, pat)
            self.did += 1
        except BufferError as e:
            self.held = "%s: %s" % (name, e)
        except (ValueError, OSError, AttributeError, SystemError, io.UnsupportedOperation):
            pass

    def _act(self, name, pat):
        h, n = self.handle, len(self.data)
        junk = M.pattern(n, pat)
        if name == "scribble":
            if self.buf is not None:
                self.buf[:] = junk[:len(self.buf)] if self.kind == "memoryview" else junk
            elif self.kind == "mmap":
                h[:] = junk
            elif self.kind == "bytesio":
                h.getbuffer()[:] = junk
            elif self.kind == "file":
                with open(self.path, "r+b") as f:
                    f.write(junk)
            else:
                self.src.data = junk
        elif name == "truncate":
            if self.buf is not None:
                if self.kind == "memoryview":
                    self.view.release()
                del self.buf[:]
            elif self.kind == "file":
                os.truncate(self.path, 0)
            elif self.src is not None:
                self.src.data = b""
            else:
                h.truncate(0)
        elif name == "close":
            h.close()
        elif name == "delete":
            if self.kind == "file":
                os.unlink(self.path)
            elif self.buf is not None:
                self.buf.reverse()
            else:
                raise ValueError
        elif name == "seek0":
            h.seek(0)
        elif name == "seekend":
            h.seek(0, 2)
        elif name == "read":
            h.read()


def safe(kind, op, lnk):
    return host.attempt(host.capture, lnk, op)


def run(scn):
    res = Result()
    link = M.build(scn["spec"])
    data = disk.apply(link.data, scn["faults"])
    if len(data) < 76 or not data:
        res.nontrivial = False
        return res
    places = []
    with host.Recorder():
        st, twin = host.attempt(host.open_link, data, link.cp, scn["terminal"])
        if st == "err":
            res.nontrivial = False
            return res
        want = [safe(None, op, twin) for op in scn["ops"]]
        p = Place(scn["kind"], data, scratch() if scn["kind"] == "file" else None)
        try:
            if p.handle is not None:
                st, lnk = host.attempt(host.open_link, None, link.cp, scn["terminal"], p.handle)
            else:
                st, lnk = host.attempt(host.open_link, p.given(), link.cp, scn["terminal"])
            if st == "err":
                res.bad("opening", "from %s: %s" % (scn["kind"], host.show_exc(lnk)))
                return res
            for i, op in enumerate(scn["ops"]):
                mine = sorted([a for a in scn["acts"] if a[0] == i], key=lambda a: a[1])
                for a in mine:
                    if a[1] == 0:
                        p.act(a[2], a[3])
                        places.append((a[2], "between"))
                during = [a for a in mine if a[1] > 0]
                if during:
                    a = during[0]
                    with sched.At(a[1], lambda a=a: p.act(a[2], a[3])) as at:
                        got = safe(None, op, lnk)
                    if at.where:
                        places.append((a[2], at.where))
                else:
                    got = safe(None, op, lnk)
                w = want[i]
                if got[0] != w[0] or (got[0] == "ok" and got[1] != w[1]) or \
                        (got[0] == "err" and type(got[1]) is not type(w[1])):
                    res.bad("changed", "%s after %s on %s: %s" % (
                        op, places, scn["kind"], M.diff(w[1], got[1]) if got[0] == "ok" else host.show_exc(got[1])))
                    break
            if p.held:
                res.bad("held", "the caller cannot use its %s: %s" % (scn["kind"], p.held))
        finally:
            if p.handle is not None:
                try:
                    p.handle.close()
                except (ValueError, BufferError, AttributeError):
                    pass
    for name, where in places:
        res.faults["%s %s" % (name, "between reports" if where == "between" else "during a report")] += 1
    res.key = (scn["kind"], places, scn["ops"])
    res.nontrivial = p.did > 0
    return res


def valid(scn):
    return G.valid_spec(scn["spec"]) and scn["kind"] in KINDS and set(scn["ops"]) <= set(host.REPORTS + host.ACCESS) and \
        all(a[2] in ACTS and type(a[1]) is int and a[1] >= 0 for a in scn["acts"])


def describe(scn):
    return ["source %s, operations %s" % (scn["kind"], scn["ops"])] + \
        ["%s %s operation %d" % (a[2], "at event %d of" % a[1] if a[1] else "before", a[0]) for a in scn["acts"]]
