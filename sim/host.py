"""The host around the library: calls, captured output and warnings."""
import contextlib
import datetime
import io
import json
import sys
import warnings

import LnkParse3  # the code under test, from /repo
import LnkParse3.exceptions

LnkFile = LnkParse3.lnk_file
LNK = sys.modules["LnkParse3.lnk_file"]
LnkParserError = LnkParse3.exceptions.LnkParserError


class Hang(BaseException):
    """Raised by the engine's watchdog."""


def open_link(data, cp=None, terminal=True, fhandle=None):
    if fhandle is not None:
        return LnkFile(fhandle, cp=cp, allow_terminal_blocks=terminal)
    return LnkFile(indata=data, cp=cp, allow_terminal_blocks=terminal)


REPORTS = ["dict", "dict_all", "json", "json_all", "text", "text_all", "target", "target_json"]
ACCESS = ["iter_targets", "iter_extras", "strings", "command", "flags", "header"]


def call(link, op):
    """Perform one operation; printed reports go to sys.stdout."""
    if op == "dict":
        return link.get_json()
    if op == "dict_all":
        return link.get_json(True)
    if op == "json":
        return link.print_json()
    if op == "json_all":
        return link.print_json(True)
    if op == "text":
        return link.print_lnk_file()
    if op == "text_all":
        return link.print_lnk_file(True)
    if op == "target":
        return link.print_shortcut_target()
    if op == "target_json":
        return link.print_shortcut_target(pjson=True)
    if op == "iter_targets":
        return [t.as_item() for t in link.targets] if link.targets else None
    if op == "iter_extras":
        return [e.name() for e in link.extras]
    if op == "strings":
        s = link.string_data
        return [s.description(), s.relative_path(), s.working_directory(), s.command_line_arguments(), s.icon_location()]
    if op == "command":
        return link.lnk_command
    if op == "flags":
        return [link.format_linkFlags(), link.format_fileFlags(), link.has_arguments(), link.is_unicode()]
    if op == "header":
        h = link.header
        return [h.creation_time(), h.hot_key(), h.window_style(), h.link_flags(), h.file_flags(), h.icon_index()]
    raise ValueError(op)


def printed(op):
    return op in ("json", "json_all", "text", "text_all", "target", "target_json")


def capture(link, op):
    """Result of one operation: the returned value, or the printed text."""
    if not printed(op):
        return call(link, op)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = call(link, op)
    out.getvalue().encode("utf-8")  # any report can be written to a UTF-8 terminal or file
    if r is not None:
        return (r, out.getvalue())
    return out.getvalue()


class Recorder:
    """All warnings issued inside the with block, whatever the filters of the host."""

    def __enter__(self):
        self._cm = warnings.catch_warnings(record=True)
        self.list = self._cm.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *exc):
        return self._cm.__exit__(*exc)

    def __len__(self):
        return len(self.list)

    def texts(self):
        return [str(w.message)[:200] for w in self.list]


def attempt(fn, *args, **kw):
    """-> ("ok", value) or ("err", exception)"""
    try:
        return "ok", fn(*args, **kw)
    except Hang:
        raise
    except BaseException as e:  # noqa: BLE001 - any escape is an observation
        e.__traceback__ = strip(e.__traceback__)
        return "err", e


def strip(tb):
    return None


def strict_json(text):
    """Parse exactly one JSON document, no NaN and no duplicate keys."""

    def pairs(p):
        d = dict(p)
        if len(d) != len(p):
            raise ValueError("duplicate key")
        return d

    def const(c):
        raise ValueError("not JSON: %s" % c)

    return json.loads(text, object_pairs_hook=pairs, parse_constant=const)


def show_exc(e):
    return "%s: %s" % (type(e).__name__, str(e)[:200])


def plain(x):
    """Deep copy into plain, comparable data."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, datetime.datetime):
        return x
    return x
