"""A host that has an answer for whatever library code asks it: variables and files which are not there, other platforms."""
import builtins
import gc
import io
import logging
import os
import platform as _platform
import socket
import sys
import sysconfig

# Loaded before the host seems to be another one: they look for other modules there.
import argparse, asyncio, codecs, collections, concurrent.futures, copy, ctypes, csv, datetime, enum, functools, getpass  # noqa
import hashlib, inspect, itertools, locale, multiprocessing, ntpath, pathlib, posixpath, pprint, queue, re, selectors, shutil  # noqa
import ssl, string, struct, subprocess, tempfile, textwrap, threading, traceback, types, typing, unicodedata, urllib.parse, uuid  # noqa
import yaml  # noqa

ANSWERS = ["1", "0", "", "true", "ascii", "cp437", "utf-16", "/", "C:\\", "debug", "65535"]
PLATFORMS = {"linux": (sys.platform, os.name, os.sep, os.linesep),
             "windows": ("win32", "nt", "\\", "\r\n"), "mac": ("darwin", "posix", "/", "\n"), "cygwin": ("cygwin", "posix", "/", "\n"),
             "java": ("java21", "java", "/", "\n")}
STDLIB = (sysconfig.get_paths()["stdlib"] + os.sep, "<frozen")
ARGV = [["x"], ["lnkparse", "-j", "--all"], ["x", "--debug", "-v"], ["pytest"], [""], []]
asked = []


def library(home):
    """Is it library code that asks, itself or by way of the standard library?"""
    f = sys._getframe(2)
    while f and (f.f_code.co_filename.startswith(STDLIB) or f.f_code.co_filename == __file__):
        if f.f_code.co_filename.endswith(("linecache.py", "_bootstrap_external.py", "warnings.py")):
            return False
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(home)


class Variables(dict):
    """The environment; unset variables have a value for library code."""

    def __init__(self, data, home, value):
        super().__init__(data)
        self.home, self.value = home, value

    def __missing__(self, k):
        if library(self.home):
            asked.append(["variable", k.decode("ascii", "replace") if isinstance(k, bytes) else str(k)])
            return self.value.encode("utf-8", "surrogateescape")
        raise KeyError(k)


def answer(home, value):
    home = os.path.join(home, "")
    os.environ._data = Variables(os.environ._data, home, value)
    there = "/" if value in ("/", "C:\\") else __file__

    def wrapped(f, other):
        def g(path, *a, **kw):
            try:
                return f(path, *a, **kw)
            except (OSError, ValueError):
                if not library(home):
                    raise
                asked.append(["file", ascii(path)])
                return other(path, *a, **kw)
        return g

    stat, access, listdir, readlink, real = os.stat, os.access, os.listdir, os.readlink, io.open
    os.stat = wrapped(stat, lambda path, **kw: stat(there))
    os.lstat = wrapped(os.lstat, lambda path, **kw: stat(there))
    os.listdir = wrapped(listdir, lambda *a: [value or "x"])
    os.readlink = wrapped(readlink, lambda *a, **kw: value)
    os.access = lambda path, mode, **kw: access(path, mode, **kw) or library(home)
    text = (value + "\n") * 3

    def opened(path, mode="r", *a, **kw):
        if set(mode) & set("wax+"):
            raise PermissionError(13, "simulated", path)
        return io.BytesIO(text.encode()) if "b" in mode else io.StringIO(text)

    builtins.open = io.open = wrapped(real, opened)
    name = value.replace("\0", "") or "x"
    u = os.uname()
    os.uname = lambda: os.uname_result((u[0], name) + tuple(u)[2:])
    _platform.uname.cache_clear() if hasattr(_platform.uname, "cache_clear") else None
    _platform._uname_cache = None
    socket.gethostname = socket.getfqdn = lambda *a: name
    os.getlogin = lambda: name
    os.getuid = os.geteuid = lambda: 1000
    os.get_terminal_size = lambda *a: os.terminal_size((1, 1) if len(value) % 2 else (1000, 1000))


def platform(name):
    sys.platform, os.name, os.sep, os.linesep = PLATFORMS[name]
    sys.byteorder = "big" if name == "java" else "little"


def argv(k):
    sys.argv[:] = ARGV[k]


def levels(n):
    logging.disable(logging.NOTSET if n else logging.CRITICAL)
    logging.getLogger().setLevel(n)


def collector(n):
    gc.set_threshold(n)
    gc.enable() if n else gc.disable()


ACTS = {"answer": answer, "platform": platform, "argv": argv, "logging": levels, "gc": collector}


def act(home, a):
    ACTS[a[0]](*([home] if a[0] == "answer" else []) + a[1:])


def valid(a):
    k, v = a[0], a[1] if len(a) == 2 else None
    return {"answer": v in ANSWERS or type(v) is int and v >= 0, "platform": v in PLATFORMS, "argv": v in range(len(ARGV)),
            "logging": v in (0, 1, 10), "gc": v in (0, 1, 10)}.get(k, False)
