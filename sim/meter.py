"""Simulated cost clock: one tick per source line executed by any Python code while it runs, plus bytes copied and memory."""
import ctypes
import sys
import tracemalloc

MON = sys.monitoring
TOOL = 4


class TooFar(BaseException):
    """The step budget is exhausted."""


class Meter:
    """Counts executed lines; raises TooFar in the metered code when the budget is spent."""

    def __init__(self, budget):
        self.budget = budget
        self.steps = 0

    def __enter__(self):
        MON.use_tool_id(TOOL, "meter")
        here = __file__

        def line(code, no):
            if code.co_filename == here:
                return MON.DISABLE
            self.steps += 1
            if self.steps > self.budget:
                self.budget = float("inf")
                raise TooFar("%s:%d" % (code.co_filename.rsplit("/", 1)[-1], no))
            return None

        MON.register_callback(TOOL, MON.events.LINE, line)
        MON.set_events(TOOL, MON.events.LINE)
        MON.restart_events()
        return self

    def __exit__(self, *exc):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.free_tool_id(TOOL)
        return False


class Counted(bytes):
    """Bytes which count what is copied out of them, directly or from a slice of a slice."""

    copied = 0

    def __getitem__(self, i):
        r = bytes.__getitem__(self, i)
        if type(i) is slice:
            Counted.copied += len(r)
            return Counted(r)
        return r


class Memory:
    """Peak of memory allocated by Python while it runs."""

    def __enter__(self):
        tracemalloc.start()
        tracemalloc.reset_peak()
        self.base = tracemalloc.get_traced_memory()[0]
        return self

    def __exit__(self, *exc):
        self.peak = tracemalloc.get_traced_memory()[1] - self.base
        tracemalloc.stop()
        return False


def volume():
    """Bytes this thread has requested from the C library so far; None without the preloaded counter."""
    if not _counter:
        try:
            f = ctypes.CDLL(None).simalloc_volume
            f.restype = ctypes.c_ulonglong
        except (OSError, AttributeError):
            f = None
        _counter.append(f)
    return _counter[0]() if _counter[0] else None


_counter = []
