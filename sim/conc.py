"""Shared by C15 and C16: jobs of threads, their references, and standard output by thread."""
import io
import pickle
import sys
import threading
import warnings

from sim import engine, host


class Router:
    """A standard output of the host which keeps the text of each thread apart."""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self):
        self.parts = {}

    def write(self, s):
        self.parts.setdefault(threading.get_ident(), []).append(s)
        return len(s)

    def flush(self):
        pass

    def take(self):
        return "".join(self.parts.pop(threading.get_ident(), []))

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = self
        return self

    def __exit__(self, *exc):
        sys.stdout = self.old
        return False


def do(router, lnk, op):
    """One operation; its value or printed text, or the error, as comparable plain data."""
    router.take()
    st, v = host.attempt(perform, lnk, op)
    text = router.take()
    if st == "err":
        return ["err", type(v).__name__, text]
    return ["ok", v, text]


def perform(lnk, op):
    if op == "walk_targets":
        out = []
        for t in lnk.targets or ():
            out.append([t.name, t.as_item()])
        return out
    if op == "walk_extras":
        return [[e.name(), e.size()] for e in lnk.extras]
    if op == "partial":
        out = []
        for n, t in enumerate(lnk.targets or ()):
            out.append(t.name)
            if n == 1:
                break
        return out
    if op == "raw_header":
        h = lnk.header
        return [h.creation_time(), h.access_time(), h.write_time(), h.link_cls_id(), h.file_size(), h.raw_hot_key(), h.r_link_flags()]
    if op == "has":
        return [lnk.has_relative_path(), lnk.has_arguments(), lnk.is_unicode(), lnk.has_name(), lnk.has_working_dir(),
                lnk.has_icon_location(), lnk.has_target_id_list(), lnk.has_link_info(), lnk.size]
    return host.call(lnk, op)


OPS = ["dict", "dict_all", "json", "json_all", "target", "target_json", "iter_targets", "iter_extras", "strings", "command", "flags",
       "header", "walk_targets", "walk_extras", "partial", "raw_header", "has"]


class quiet:
    """Warnings go nowhere; set and unset outside of the threads."""

    def __enter__(self):
        self.cm = warnings.catch_warnings()
        self.cm.__enter__()
        warnings.simplefilter("always")
        warnings.showwarning = lambda *a, **k: None

    def __exit__(self, *exc):
        return self.cm.__exit__(*exc)


def alone(job):
    """What job() returns in a process of its own, in which nothing else has run."""
    out = engine.child(lambda: pickle.dumps(job()), 60)
    if isinstance(out, bytes):
        return pickle.loads(out)
    raise RuntimeError("reference: %s" % out)


class Opened(dict):
    """The links, opened when they are first asked for."""

    def __init__(self, data):
        self.data = data

    def __missing__(self, k):
        self[k] = host.open_link(*self.data[k])
        return self[k]


def pick(rng):
    return rng.choice(["text", "text_all"]) if rng.random() < 0.05 else rng.choice(OPS)


def valid_schedule(s, threads):
    return all(type(g) is int and type(w) is int and g >= 0 and w >= 0 for g, w in s)
