"""Process-wide state of the host; depends on nothing but the interpreter."""
import atexit
import argparse
import asyncio
import builtins
import codecs
import contextvars
import copyreg
import csv
import datetime
import decimal
import faulthandler
import fcntl
import functools
import gc
import hashlib
import io
import json
import locale
import logging
import os
import random
import re
import resource
import select
import signal
import socket
import string
import struct
import subprocess
import sys
import tempfile
import textwrap
import threading
import time
import tracemalloc
import warnings

PATCHABLE = [argparse, builtins, codecs, contextvars, copyreg, csv, decimal, gc, hashlib, logging, select, socket, string, subprocess,
             sys, datetime, functools, io, json, json.encoder, json.decoder, locale, os, random, re, signal, struct,
             textwrap, threading, time, warnings]
# Counters and caches the interpreter itself keeps in there.
HANDLERS = ("strict", "ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace", "surrogateescape", "surrogatepass")
CLASSES = [json.JSONEncoder, json.JSONDecoder, textwrap.TextWrapper, warnings.WarningMessage, warnings.catch_warnings, logging.Logger,
           argparse.ArgumentParser, string.Formatter, threading.Thread, io.TextIOWrapper, io.StringIO]
VOLATILE = {("subprocess", "_active"), ("sys", "last_exc"), ("sys", "last_type"), ("sys", "last_value"), ("sys", "last_traceback"),
            ("logging", "_handlers"), ("warnings", "_filters_version"), ("warnings", "filters"), ("warnings", "onceregistry"), ("warnings", "_onceregistry"),
            ("threading", "_counter"), ("re", "_cache"), ("builtins", "_"), ("threading", "_active"), ("threading", "_dangling"),
            ("threading", "_shutdown_locks"), ("time", "tzname"), ("time", "timezone"), ("time", "daylight"), ("time", "altzone"),
            ("json.decoder", "NaN"), ("warnings", "__warningregistry__"), ("warnings", "filters_mutated")}


def fds():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append((int(n), os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass  # the one used for listing
    return sorted(out)


def slurp(path):
    with open(path) as f:
        return f.read()


def stream(s):
    return [id(s)] + [repr(getattr(s, a, None)) for a in ("encoding", "errors", "line_buffering", "write_through", "closed")]


def flat(t):
    return {k: id(v) for k, v in t.items()}


def snapshot(yaml=None, before=None):
    """before: the snapshot this one is to be compared with."""
    s = {}
    s["warning filters"] = [tuple(f) for f in warnings.filters]
    s["warning hooks"] = [id(warnings.showwarning), id(warnings.formatwarning), id(warnings._showwarnmsg_impl), id(warnings.warn)]
    s["standard output"], s["standard error"], s["standard input"] = stream(sys.stdout), stream(sys.stderr), stream(sys.stdin)
    s["original streams"] = [stream(sys.__stdout__), stream(sys.__stderr__), stream(sys.__stdin__)]
    s["interpreter hooks"] = [id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.gettrace()), id(sys.getprofile()),
                              id(threading.excepthook), id(sys.breakpointhook), id(threading.gettrace()), id(threading.getprofile())]
    s["monitoring"] = [sys.monitoring.get_tool(i) for i in range(6)]
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["int digits"] = sys.get_int_max_str_digits()
    s["import path"] = [list(sys.path), [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks], sys.dont_write_bytecode]
    s["arguments"] = list(sys.argv)
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["time zone"] = [time.tzname, time.timezone, time.daylight]
    s["environment"] = dict(os.environ)
    try:
        s["directory"] = os.getcwd()
    except OSError as e:
        s["directory"] = type(e).__name__
    s["umask"] = os.umask(0o22)
    os.umask(s["umask"])
    s["signal handlers"] = [(n, id(signal.getsignal(n))) for n in signal.valid_signals()]
    s["signal mask"] = sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))
    s["timers"] = [signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)] + \
        [signal.getitimer(t)[0] > 0 for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    s["limits"] = [resource.getrlimit(getattr(resource, n)) for n in dir(resource) if n.startswith("RLIMIT_")]
    s["collector"] = [gc.isenabled(), gc.get_threshold(), [id(c) for c in gc.callbacks], gc.get_debug(), gc.get_freeze_count()]
    s["open files"] = fds()
    s["threads"] = sorted((t.ident or 0) for t in threading.enumerate())
    s["decimal context"] = repr(decimal.getcontext())
    s["random state"] = hash(random.getstate())
    s["logging"] = [[id(h) for h in logging.root.handlers], logging.root.level, logging.root.disabled, logging.root.manager.disable,
                    id(logging.lastResort), id(logging.getLoggerClass()), logging.raiseExceptions,
                    [id(h) for h in logging.getLogger("py.warnings").handlers]]
    s["codec error handlers"] = [id(codecs.lookup_error(n)) for n in HANDLERS]
    s["modules"] = {n: id(m) for n, m in sys.modules.items()} if before is None else \
        {n: id(sys.modules.get(n)) for n in before["modules"]}
    s["thread settings"] = [threading.stack_size(), sorted(t.name for t in threading.enumerate()), threading._limbo == {}]
    s["asynchronous hooks"] = [repr(sys.get_asyncgen_hooks()), sys.get_coroutine_origin_tracking_depth(),
                               id(asyncio.events._event_loop_policy), repr(asyncio._get_running_loop())]
    s["context variables"] = sorted((v.name, id(x)) for v, x in contextvars.copy_context().items() if v.name != "decimal_context")
    s["csv"] = csv.field_size_limit()
    s["pickling"] = flat(copyreg.dispatch_table)
    s["descriptor flags"] = [(n, fcntl.fcntl(n, fcntl.F_GETFL), fcntl.fcntl(n, fcntl.F_GETFD)) for n, _ in fds() if n <= 2]
    s["process group"] = [os.getpgid(0), os.getsid(0), os.getuid(), os.geteuid(), os.getgid(), os.getegid()]
    s["process name"] = [slurp("/proc/self/" + n) for n in ("comm", "coredump_filter", "oom_score_adj")]
    s["decimal defaults"] = [repr(decimal.DefaultContext), repr(decimal.BasicContext)]
    for c in CLASSES:
        s["class " + c.__name__] = {k: id(v) for k, v in vars(c).items()}
    s["socket timeout"] = socket.getdefaulttimeout()
    s["exit functions"] = atexit._ncallbacks()
    s["scheduling"] = [os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0))]
    s["tracing"] = [faulthandler.is_enabled(), tracemalloc.is_tracing()]
    s["temporary directory"] = tempfile.tempdir
    for m in PATCHABLE:
        s["module " + m.__name__] = {k: id(v) for k, v in vars(m).items() if (m.__name__, k) not in VOLATILE}
    s["json default"] = [id(json.JSONEncoder.default), id(json.JSONEncoder.encode), id(json.JSONEncoder.iterencode),
                         repr(sorted(k for k in vars(json.JSONEncoder)))]
    if yaml:
        for c in (yaml.Dumper, yaml.SafeDumper, yaml.representer.Representer, yaml.representer.SafeRepresenter, yaml.Loader,
                  yaml.SafeLoader, yaml.resolver.Resolver, yaml.emitter.Emitter):
            s["yaml." + c.__name__] = [{k: id(v) for k, v in vars(c).items() if not isinstance(v, (dict, list))},
                                       flat(getattr(c, "yaml_representers", {})), flat(getattr(c, "yaml_multi_representers", {})),
                                       flat(getattr(c, "yaml_constructors", {})), id(c.ignore_aliases) if hasattr(c, "ignore_aliases") else 0,
                                       sorted((repr(k), len(v)) for k, v in getattr(c, "yaml_implicit_resolvers", {}).items())]
        for m in [yaml] + [getattr(yaml, n) for n in ("emitter", "representer", "serializer", "resolver", "dumper", "nodes", "events")]:
            s["module " + m.__name__] = {k: id(v) for k, v in vars(m).items()}
    return s


def changes(a, b):
    out = []
    for k in a:
        if a[k] != b.get(k):
            x, y = a[k], b.get(k)
            if isinstance(x, dict) and isinstance(y, dict):
                ks = sorted({str(n) for n in set(x) | set(y) if x.get(n) != y.get(n)})
                out.append("%s: %s" % (k, ", ".join(ks)[:300]))
            else:
                out.append("%s: %s became %s" % (k, repr(x)[:200], repr(y)[:200]))
    return out


WRITES = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime",
          "os.setxattr", "os.removexattr", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "os.kill",
          "os.putenv", "os.unsetenv", "os.chdir", "os.fchdir", "socket.connect", "socket.sendto", "socket.bind", "socket.getaddrinfo",
          "socket.gethostbyname", "socket.sendmsg", "subprocess.Popen", "shutil.", "tempfile.", "signal.pthread_kill", "syslog.",
          "webbrowser.", "fcntl.", "sqlite3.", "urllib.", "smtplib.", "ftplib.", "mmap.__new__")
_watch = {"on": False, "seen": [], "installed": False}


def _audit(event, args):
    if not _watch["on"]:
        return
    if event == "open":
        mode, flags = args[1], args[2]
        wr = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if wr or (isinstance(mode, str) and set(mode) & set("wax+")):
            _watch["seen"].append("open %r for writing" % (args[0],))
    elif event.startswith(WRITES):
        _watch["seen"].append("%s %s" % (event, repr(args)[:120]))


class Watch:
    """Everything written elsewhere: audited calls, and what reaches the descriptors 1 and 2."""

    def __enter__(self):
        if not _watch["installed"]:
            sys.addaudithook(_audit)
            _watch["installed"] = True
        self.old = []
        self.fds = []
        for fd in (1, 2):
            self.old.append(os.dup(fd))
            m = os.memfd_create("std%d" % fd)
            os.dup2(m, fd)
            self.fds.append(m)
        return self

    def on(self):
        _watch["seen"] = []
        _watch["on"] = True

    def off(self):
        _watch["on"] = False
        return _watch["seen"]

    def __exit__(self, *exc):
        _watch["on"] = False
        self.written = []
        for fd, old, m in zip((1, 2), self.old, self.fds):
            n = os.fstat(m).st_size
            if n:
                self.written.append("%d bytes on descriptor %d: %r" % (n, fd, os.pread(m, 200, 0)))
            os.dup2(old, fd)
            os.close(old)
            os.close(m)
        return False


assert select  # keep: imported before the first snapshot, so that it is no difference
