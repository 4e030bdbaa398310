"""Simulated sources and sinks: raw streams that follow an explicit delivery schedule."""
import asyncio
import errno
import gzip
import io
import mmap
import os
import struct
import zipfile
import zlib

from sim import host


class HostError(Exception):
    """An exception type of the host, unknown to the library."""


class HostAbort(BaseException):
    """Cancellation by the host."""


def fault(kind):
    """A fresh exception of the given kind."""
    if kind in ("EIO", "ENOSPC", "EPIPE", "ETIMEDOUT", "ECONNRESET", "EBADF", "ESTALE", "EAGAIN", "EDQUOT", "EFBIG", "EINTR"):
        e = getattr(errno, kind)
        return OSError(e, os.strerror(e))
    return {"closed": lambda: ValueError("I/O operation on closed file."), "KeyboardInterrupt": lambda: KeyboardInterrupt(),
            "MemoryError": lambda: MemoryError("simulated"), "HostError": lambda: HostError("host"),
            "HostAbort": lambda: HostAbort("host"), "SystemExit": lambda: SystemExit(3), "EOFError": lambda: EOFError("truncated"),
            "struct.error": lambda: struct.error("source: bad frame"), "KeyError": lambda: KeyError("source"),
            "StopIteration": lambda: StopIteration("source"), "RuntimeError": lambda: RuntimeError("source"),
            "UnicodeDecodeError": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "source"),
            "TypeError": lambda: TypeError("source"), "AttributeError": lambda: AttributeError("source"),
            "IndexError": lambda: IndexError("source"), "OverflowError": lambda: OverflowError("source"),
            "UserWarning": lambda: UserWarning("host"), "RecursionError": lambda: RecursionError("simulated"),
            "CancelledError": lambda: asyncio.CancelledError("host"), "zlib.error": lambda: zlib.error("Error -3 in source"),
            "NotImplementedError": lambda: NotImplementedError("source"), "AssertionError": lambda: AssertionError("source"),
            "GeneratorExit": lambda: GeneratorExit("source"), "LnkParserError": lambda: host.LnkParserError("source")}[kind]()


READ_FAULTS = ["EIO", "ETIMEDOUT", "ECONNRESET", "EBADF", "ESTALE", "closed", "KeyboardInterrupt", "MemoryError", "HostError",
               "HostAbort", "EOFError", "struct.error", "KeyError", "RuntimeError", "UnicodeDecodeError", "TypeError",
               "AttributeError", "IndexError", "OverflowError", "SystemExit", "EAGAIN", "CancelledError",
               "StopIteration", "GeneratorExit", "LnkParserError", "zlib.error", "NotImplementedError", "AssertionError"]
WRITE_FAULTS = ["ENOSPC", "EPIPE", "EIO", "EDQUOT", "EFBIG", "ECONNRESET", "closed", "KeyboardInterrupt", "HostError", "HostAbort"]

# An interrupted write surfaces only where no layer of the interpreter repeats it.
TEXT_FAULTS = WRITE_FAULTS + ["EINTR"]


class Source(io.RawIOBase):
    """Stored bytes, delivered as the plan says: n (bytes), "eintr", ["delay", s], ["fail", kind]; then `chunk` at a time."""

    def __init__(self, data, plan, chunk=65536, seekable=True):
        super().__init__()
        self.data, self.plan, self.chunk, self._seekable = data, list(plan), chunk, seekable
        self.at = 0
        self.clock = 0.0
        self.raised = []
        self.calls = 0
        self.fired = {"eintr": 0, "delay": 0, "fail": 0, "short read": 0}

    def readable(self):
        return True

    def seekable(self):
        return self._seekable

    def seek(self, off, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("seek")
        self.at = off if whence == 0 else self.at + off if whence == 1 else len(self.data) + off
        return self.at

    def tell(self):
        if not self._seekable:
            raise io.UnsupportedOperation("tell")
        return self.at

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        while True:  # as FileIO does
            try:
                return super().read(n)
            except InterruptedError:
                pass

    def readinto(self, b):
        n = self.step()
        n = min(max(n, 1), len(b), len(self.data) - self.at)
        if 0 < n < min(len(b), len(self.data) - self.at):
            self.fired["short read"] += 1
        b[:n] = self.data[self.at:self.at + n]
        self.at += n
        return n

    def step(self):
        """How much the next read may deliver."""
        self.calls += 1
        while self.plan:
            step = self.plan.pop(0)
            if step == "eintr":
                self.fired["eintr"] += 1
                raise InterruptedError(errno.EINTR, "interrupted")
            if isinstance(step, int):
                return step
            if step[0] == "delay":
                self.fired["delay"] += 1
                self.clock += step[1]
                continue
            if step[0] == "fail":
                self.fired["fail"] += 1
                e = fault(step[1])
                self.raised.append(e)
                raise e
        return self.chunk


class Descriptor(io.FileIO):
    """An open file of the system (a regular one or a pipe), with the delivery schedule of a Source."""

    def __init__(self, data, plan, chunk=65536, special=False):
        if special:  # all of it fits in the pipe
            fd, w = os.pipe()
            os.write(w, data)
            os.close(w)
        else:
            fd = os.memfd_create("link")
            os.write(fd, data)
            os.lseek(fd, 0, 0)
        super().__init__(fd, "rb")
        self.schedule = Source(b"", plan, chunk)
        self.left = len(data)

    def readinto(self, b):
        s = self.schedule
        while True:
            try:
                n = min(max(s.step(), 1), len(b))
                break
            except InterruptedError:  # as FileIO does
                pass
        with memoryview(b) as v:
            got = super().readinto(v[:n])
        self.left -= got
        if got < min(len(b), self.left + got):
            s.fired["short read"] += 1
        return got

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        return bytes(b[:self.readinto(b)])

    def readall(self):
        return io.RawIOBase.readall(self)


class ReadOnly:
    """A duck-typed source: nothing but read()."""

    def __init__(self, f):
        self._f = f

    def read(self, n=-1):
        return self._f.read(n)


class False_(ReadOnly):
    """A source of a class which has a length or a truth value of its own."""

    def __bool__(self):
        return False


class Empty(ReadOnly):
    def __len__(self):
        return 0


WRAPS = ["false", "empty", "raw", "buffered", "small", "pipe", "bytesio", "duck", "gzip", "zip", "mmap", "file", "descriptor", "buffered descriptor",
         "special file"]
PIPE = 60000


def wrap(kind, data, plan, chunk, scratch=None):
    """-> (handle given to the library, simulated raw source or None)"""
    if kind == "bytesio":
        return io.BytesIO(data), None
    if kind == "mmap":
        m = mmap.mmap(-1, max(1, len(data)))
        m[:len(data)] = data
        return m, None
    if kind == "file":
        with open(scratch, "wb") as f:
            f.write(data)
        return open(scratch, "rb"), None
    if kind == "zip":
        z = io.BytesIO()
        with zipfile.ZipFile(z, "w", zipfile.ZIP_DEFLATED) as f:
            f.writestr("a.lnk", data)
        src = Source(z.getvalue(), plan, chunk)
        return zipfile.ZipFile(io.BufferedReader(src, 64)).open("a.lnk"), src
    if kind == "gzip":
        src = Source(gzip.compress(data, 1, mtime=0), plan, chunk)
        return gzip.GzipFile(fileobj=io.BufferedReader(src, 512)), src
    if kind.endswith("descriptor") or (kind == "special file" and len(data) <= PIPE):
        f = Descriptor(data, plan, chunk, kind == "special file")
        return (f if kind == "descriptor" else io.BufferedReader(f)), f.schedule
    src = Source(data, plan, chunk, seekable=kind not in ("pipe", "special file"))
    if kind == "raw":
        return src, src
    if kind == "small":
        return io.BufferedReader(src, 7), src
    if kind in ("duck", "false", "empty"):
        return {"duck": ReadOnly, "false": False_, "empty": Empty}[kind](io.BufferedReader(src)), src
    return io.BufferedReader(src), src


def chunks(rng, n, k=None):
    """A delivery plan for about n bytes."""
    style = rng.randrange(5)
    plan = []
    left = n
    limit = k or rng.choice([3, 10, 60, 400])
    while left > 0 and len(plan) < limit:
        r = rng.random()
        if r < 0.15:
            plan.append("eintr")
            continue
        if r < 0.25:
            plan.append(["delay", rng.choice([0.001, 0.2, 5, 3600])])
            continue
        c = 1 if style == 0 else rng.choice([1, 2, 3]) if style == 1 else rng.choice([511, 512, 513]) if style == 2 else \
            rng.choice([4095, 4096, 8192, 65536]) if style == 3 else rng.randrange(1, max(2, n))
        plan.append(c)
        left -= c
    return plan


class Sink(io.RawIOBase):
    """A simulated standard output: takes writes as the plan says: n (accept at most n), "eintr", "block", ["fail", kind];
    then all."""

    def __init__(self, plan, sticky=False):
        super().__init__()
        self.plan, self.got, self.raised, self.sticky = list(plan), bytearray(), [], sticky
        self.fired = {"eintr": 0, "fail": 0, "short write": 0, "would block": 0}
        self.terminal = False

    def writable(self):
        return True

    def isatty(self):
        return self.terminal

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        b = bytes(b)
        if not self.plan:
            self.got += b
            return len(b)
        step = self.plan.pop(0)
        if step == "eintr":
            self.fired["eintr"] += 1
            raise InterruptedError(errno.EINTR, "interrupted")
        if step == "block":
            self.fired["would block"] += 1
            return None
        if isinstance(step, int):
            n = min(max(step, 1), len(b))
            self.fired["short write"] += n < len(b)
            self.got += b[:n]
            return n
        if self.sticky:
            self.plan.insert(0, step)
        self.fired["fail"] += 1
        e = fault(step[1])
        self.raised.append(e)
        raise e


def stdout(sink, cfg):
    """The text layer on top of a sink: {"buffer": n or 0, "encoding", "errors", "line": bool, "newline", "tty": bool}"""
    sink.terminal = cfg.get("tty", False)
    raw = io.BufferedWriter(sink, cfg["buffer"]) if cfg["buffer"] else sink
    return io.TextIOWrapper(raw, encoding=cfg["encoding"], errors=cfg["errors"], newline=cfg["newline"],
                            line_buffering=cfg["line"], write_through=not cfg["buffer"])


class TextSink:
    """A standard output of the host without layers below: takes n writes, then fails, perhaps having taken a part."""

    def __init__(self, plan):
        self.plan, self.text, self.raised = list(plan), "", []
        self.fired = {"eintr": 0, "fail": 0, "short write": 0, "would block": 0}

    def write(self, s):
        step = self.plan.pop(0) if self.plan else 0
        if isinstance(step, list):
            self.fired["fail"] += 1
            self.text += s[:step[2]] if len(step) > 2 else ""
            e = fault(step[1])
            self.raised.append(e)
            raise e
        self.text += s
        return len(s)

    def flush(self):
        pass


def write_plan(rng, n, unbuffered, fail=0.7, text=False):
    """A schedule of write results for a report of about n bytes."""
    plan = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 8, 30])):
        r = rng.random()
        if unbuffered:
            plan.append(1 << 30)
        elif r < 0.2:
            plan.append("eintr")
        elif r < 0.23:
            plan.append("block")
        else:
            plan.append(rng.choice([1, 2, 3, 10, 100, 511, 4096, 1 << 30, rng.randrange(1, max(2, n))]))
    if rng.random() < fail:
        plan.append(["fail", rng.choice(WRITE_FAULTS)])
        if text:  # json.dump and the like write many small pieces
            if rng.random() < 0.5:
                plan[:-1] = [1 << 30] * rng.choice([1, 2, 5, 20, 80, 300])
            plan[-1] = ["fail", rng.choice(TEXT_FAULTS), rng.choice([0, 0, 1, 2, rng.randrange(max(1, n))])]
    return plan


def valid_plan(plan, unbuffered, text=False):
    if text and plan and type(plan[-1]) is list and len(plan[-1]) == 3:
        f = plan[-1]
        if f[0] != "fail" or f[1] not in TEXT_FAULTS or type(f[2]) is not int or f[2] < 0:
            return False
        plan = plan[:-1]
    return all((type(x) is int and x > 0 and (not unbuffered or x >= 1 << 30)) or (x in ("eintr", "block") and not unbuffered) or
               (type(x) is list and len(x) == 2 and x[0] == "fail" and x[1] in WRITE_FAULTS) for x in plan)


def sink_config(rng, safe=False):
    enc = rng.choice(["utf-8", "utf-8", "utf-16-le", "utf-8-sig"] if safe else ["utf-8", "utf-8", "ascii", "cp1252", "utf-16-le"])
    return {"buffer": rng.choice([0, 1, 16, 100, 512, 8192]), "encoding": enc,
            "errors": rng.choice(["strict", "strict", "backslashreplace", "surrogateescape"]),
            "line": rng.random() < 0.4, "newline": rng.choice(["\n", "\n", "\r\n", None]),
            "tty": rng.random() < 0.25}


def valid_config(c):
    return type(c["buffer"]) is int and c["buffer"] in (0, 1, 16, 100, 512, 8192) and type(c["line"]) is bool and type(c.get("tty", False)) is bool and \
        c["encoding"] in ("utf-8", "utf-16-le", "utf-8-sig", "ascii", "cp1252") and c["newline"] in ("\n", "\r\n", None) and \
        c["errors"] in ("strict", "backslashreplace", "surrogateescape")


def encoded(text, cfg):
    """-> (bytes the stream has to receive, whether all of text could be encoded)"""
    if cfg["newline"] == "\r\n":
        text = text.replace("\n", "\r\n")
    try:
        return text.encode(cfg["encoding"], cfg["errors"]), True
    except UnicodeEncodeError as e:
        # Nothing behind the first character that cannot be encoded may arrive.
        return text[:e.start].encode(cfg["encoding"], cfg["errors"]), False
