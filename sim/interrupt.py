"""Exceptions from outside, delivered into running library code."""
import asyncio
import contextlib
import sys
import warnings

from sim import host, sched, stream

KINDS = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "MemoryError", "SystemExit", "CancelledError", "HostError",
         "HostError", "HostAbort", "RecursionError", "ETIMEDOUT", "ETIMEDOUT", "EINTR", "EIO"]
HOWS = ["raise"] * 12 + ["stack", "warning", "hook"]


def make(kind):
    return asyncio.CancelledError() if kind == "CancelledError" else stream.fault(kind)


def plan(rng, warned=0):
    """[how, where, kind, grain, around]"""
    how = rng.choice(HOWS if rng.random() >= warned else ["warning", "hook"])
    return [how, rng.getrandbits(20), rng.choice(KINDS), "instruction" if rng.random() < 0.25 else "line", rng.random() < 0.2]


def valid(p):
    return len(p) == 5 and p[0] in HOWS and type(p[1]) is int and p[1] >= 0 and p[2] in KINDS and \
        p[3] in ("line", "instruction") and type(p[4]) is bool


class Outcome:
    """st/value as host.attempt; `sent` the exception that was delivered (None: none); `where` a description."""

    def __init__(self, st, value, sent, where):
        self.st, self.value, self.sent, self.where = st, value, sent, where


def depth():
    n, f = 0, sys._getframe()
    while f:
        n, f = n + 1, f.f_back
    return n


@contextlib.contextmanager
def dropping():
    """Collects exceptions the interpreter itself drops out of a finalizer (a generator being closed)."""
    dropped = []
    old = sys.unraisablehook
    sys.unraisablehook = lambda u: dropped.append(u.exc_value)
    try:
        yield dropped
    finally:
        sys.unraisablehook = old


def perform(fn, p, dry, apart=lambda job: job()):
    """As _perform; an exception the interpreter drops counts as not delivered."""
    with dropping() as dropped:
        out = _perform(fn, p, dry, apart)
    if any(d is out.sent for d in dropped):
        out.sent = None
    return out


def _perform(fn, p, dry, apart):
    """Run fn with the interruption p.  dry() is the same work on another link, to learn how many places there are; apart()
    makes it in another process when this one must not have seen that work before."""
    how, where, kind, grain, around = p

    def places():
        c = sched.Count(grain, around)
        with c:
            host.attempt(dry)
        return c.n

    def warned():
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            host.attempt(dry)
        return [w.message for w in seen]

    if how == "raise":
        n = apart(places)
        if not n:
            return Outcome(*host.attempt(fn), None, None)
        sent = make(kind)

        def act():
            raise sent

        with sched.At(1 + where % n, act, grain, around=around) as at:
            st, v = host.attempt(fn)
        return Outcome(st, v, sent if at.where else None, at.where)
    if how == "stack":
        old = sys.getrecursionlimit()
        room = 3 + where % 40
        try:
            sys.setrecursionlimit(depth() + room)
            st, v = host.attempt(fn)
        except RecursionError as e:  # not even attempt() fits
            st, v = "err", e
        finally:
            sys.setrecursionlimit(old)
        hit = st == "err" and isinstance(v, RecursionError)
        return Outcome(st, v, v if hit else None, "stack of %d frames" % room)
    # The host makes warnings errors, or its hook fails at the n-th of them.
    seen = apart(warned)
    if not seen:
        return Outcome(*host.attempt(fn), None, None)
    if how == "warning":
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            st, v = host.attempt(fn)
        if st == "err" and isinstance(v, Warning) and str(v) == str(seen[0]) and type(v) is type(seen[0]):
            return Outcome(st, v, v, "warning 1")
        return Outcome(st, v, seen[0], "warning 1")
    sent = make(kind)
    k = 1 + where % len(seen)
    count = [0]

    def hook(*a, **kw):
        count[0] += 1
        if count[0] == k:
            raise sent

    with warnings.catch_warnings():
        warnings.simplefilter("always")
        warnings.showwarning = hook
        st, v = host.attempt(fn)
    return Outcome(st, v, sent if count[0] >= k else None, "warning %d" % k)
