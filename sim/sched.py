"""Control over the interpreter while code of the library runs.

Events are the lines (or single instructions) of LnkParse3 code, delivered by sys.monitoring in the thread that is
about to execute them.  `At` acts at the n-th event (raise an exception, disturb something); `Threads` runs real threads
of which exactly one holds the baton, and hands the baton over at the events the schedule names.
"""
import os
import sys
import threading
import time

import LnkParse3
import yaml

MON = sys.monitoring
TOOL = 3
HOME = os.path.dirname(os.path.abspath(LnkParse3.__file__)) + os.sep
STDLIB = os.path.dirname(os.__file__) + os.sep
# Code of others the library runs its reports through; contextlib and the simulator itself are never disturbed.
AROUND = [HOME, os.path.dirname(os.path.abspath(yaml.__file__)) + os.sep] + \
    [STDLIB + x for x in ("json", "re", "textwrap.py", "subprocess.py", "encodings", "codecs.py", "functools.py", "warnings.py", "copy.py")]
EVENT = {"line": MON.events.LINE, "instruction": MON.events.INSTRUCTION, "call": MON.events.PY_START}


class _Tap:
    """Calls self.event(code, position) for each event in library code."""

    grain = "line"
    around = False

    def start(self):
        MON.use_tool_id(TOOL, "simulator")
        ev = EVENT[self.grain]
        homes, event = tuple(AROUND) if self.around else HOME, self.event

        def tap(code, pos):
            if not code.co_filename.startswith(homes):
                return MON.DISABLE
            return event(code, pos)

        MON.register_callback(TOOL, ev, tap)
        MON.set_events(TOOL, ev)
        MON.restart_events()

    def stop(self):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, EVENT[self.grain], None)
        MON.free_tool_id(TOOL)

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *exc):
        self.stop()
        return False


class Count(_Tap):
    """How many events an operation has."""

    def __init__(self, grain="line", around=False):
        self.grain, self.n, self.around = grain, 0, around

    def event(self, code, pos):
        self.n += 1


class At(_Tap):
    """Run action() at the n-th event (counted from 1), in the thread and on the stack of the library code."""

    def __init__(self, n, action, grain="line", again=0, around=False):
        self.around = around
        self.grain, self.n, self.action, self.seen, self.where, self.again = grain, n, action, 0, None, again

    def event(self, code, pos):
        self.seen += 1
        if self.seen == self.n:
            self.where = "%s:%s" % (os.path.basename(code.co_filename), code.co_name)
            if self.again:
                self.n += self.again
            self.action()


class Series(_Tap):
    """Run several actions: {n: function}."""

    def __init__(self, actions, grain="line", around=False):
        self.actions, self.grain, self.around, self.seen, self.where = actions, grain, around, 0, []

    def event(self, code, pos):
        self.seen += 1
        f = self.actions.get(self.seen)
        if f:
            self.where.append(code.co_name)
            f()


class Deadlock(Exception):
    pass


class Threads(_Tap):
    """Run the functions in `jobs` as threads under an explicit schedule.

    schedule: [[gap, who], ...]: after `gap` more events hand the baton to thread `who` (modulo those still running);
    when it is used up, {"cycle": True} starts it over, else each thread runs to its end in turn.
    """

    def __init__(self, jobs, schedule, cycle=False, grain="line", around=False):
        self.around = around
        self.jobs, self.schedule, self.cycle, self.grain = jobs, schedule, cycle, grain
        self.n = len(jobs)
        self.sems = [threading.Semaphore(0) for _ in jobs]
        self.results = [None] * self.n
        self.alive = [True] * self.n
        self.who = {}
        self.current = 0
        self.pos = 0
        self.left = schedule[0][0] if schedule else -1
        self.events = 0
        self.switches = 0
        self.stuck = 0
        self.blocked = set()  # waiting for a real lock
        self.trace = []
        self.done = threading.Event()
        self.guard = threading.Lock()

    def _next(self, me):
        """The thread that gets the baton after a gap has passed."""
        s = self.schedule
        want = s[self.pos][1]
        self.pos += 1
        if self.pos >= len(s) and self.cycle:
            self.pos = 0
        self.left = s[self.pos][0] if self.pos < len(s) else -1
        live = [i for i in range(self.n) if self.alive[i] and i not in self.blocked]
        return live[want % len(live)] if live else me

    def event(self, code, pos):
        me = self.who.get(threading.get_ident())
        if me is None:
            return
        if self.blocked:
            self.blocked.discard(me)
        if self.current != me:  # released from a real lock while somebody else has the baton
            self.sems[me].acquire()
        self.events += 1
        if self.left > 0:
            self.left -= 1
            return
        if self.left < 0:
            return
        to = self._next(me)
        if to == me:
            return
        self.switches += 1
        if len(self.trace) < 4000:
            self.trace.append((me, code.co_name, pos, to))
        self._pass(me, to)

    def _pass(self, me, to):
        self.current = to
        self.sems[to].release()
        self.sems[me].acquire()

    def _body(self, i):
        self.who[threading.get_ident()] = i
        self.sems[i].acquire()
        try:
            self.results[i] = ("ok", self.jobs[i]())
        except BaseException as e:  # noqa: BLE001
            self.results[i] = ("err", e)
        finally:
            with self.guard:
                self.alive[i] = False
                live = [j for j in range(self.n) if self.alive[j]]
                if not live:
                    self.done.set()
                elif self.current == i:
                    self.current = live[0]
                    self.sems[live[0]].release()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        while len(self.who) < self.n:
            time.sleep(0)
        self.start()
        try:
            self.sems[0].release()
            last, idle = -1, 0
            while not self.done.wait(0.05):
                # The baton holder may be blocked by a real lock that a parked thread holds: hand the baton on.
                if self.events == last:
                    idle += 1
                    if idle >= 6:
                        self._unstick()
                        idle = 0
                else:
                    last, idle = self.events, 0
        finally:
            self.stop()
        for t in ts:
            t.join()
        return self.results

    def _unstick(self):
        with self.guard:
            live = [j for j in range(self.n) if self.alive[j]]
            if len(live) < 2:
                return
            self.stuck += 1
            if self.stuck > 20:
                self.left = -1  # no more hand-overs
            if self.current in live:
                self.blocked.add(self.current)
            to = live[(live.index(self.current) + 1) % len(live)] if self.current in live else live[0]
            self.current = to
            self.sems[to].release()


def schedule(rng, events, threads):
    """A seeded schedule: few or many switch points, or lockstep."""
    r = rng.random()
    if r < 0.25:  # a few arbitrary preemption points
        k = rng.randrange(1, 6)
        return [[rng.randrange(max(1, events)), rng.randrange(threads)] for _ in range(k)], False
    if r < 0.5:  # lockstep
        return [[rng.choice([0, 0, 1, 2, 3, 7]), i + 1] for i in range(threads)], True
    mean = rng.choice([2, 5, 20, 80])
    return [[int(rng.expovariate(1 / mean)), rng.randrange(threads)] for _ in range(rng.choice([20, 60, 200]))], rng.random() < 0.7
