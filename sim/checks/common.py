"""Shared by the checks: report comparison."""
import textwrap

import yaml

from sim import host, model as M

REAL = ["LnkParse3 (all modules, unmodified, from /repo)", "json, yaml, struct, datetime, warnings (CPython)"]
_Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)


class Bad(Exception):
    """A report is not what it has to be."""


def text_struct(printed):
    head = "Windows Shortcut Information:\n"
    if not printed.startswith(head):
        raise Bad("text report does not start with its title: %r" % printed[:60])
    body = printed[len(head):]
    return yaml.load(textwrap.dedent(body), Loader=_Loader)


BREAKS = set("\x85\u2028\u2029")


def loose(x):
    """x, with strings free of white space."""
    if isinstance(x, dict):
        return {loose(k): loose(v) for k, v in x.items()}
    if isinstance(x, list):
        return [loose(v) for v in x]
    if isinstance(x, str):
        return "".join(c for c in x if not c.isspace() and c not in BREAKS)
    return x


def expected_target(report):
    """(relative path, arguments) -> what print_shortcut_target has to contain, from the dictionary report."""
    d = report["data"]
    return d.get("relative_path"), d.get("command_line_arguments")


def check_target(report, got):
    """The shortcut target is the quoted path followed by the arguments."""
    rel, args = expected_target(report)
    if args is not None:
        if not got.endswith(args):
            return "arguments %r missing from target %r" % (args[:80], got[:160])
        rest = got[:len(got) - len(args)]
        if rel is not None:
            if not rest.endswith(" "):
                return "no separator in target %r" % got[:160]
            rest = rest[:-1]
    else:
        rest = got
    if rel is None:
        return None if rest == "" else "target %r without a relative path" % got[:160]
    plain = rest[1:-1] if len(rest) >= 2 and rest[0] == rest[-1] == '"' and rest != rel else rest
    if plain != rel and plain.replace("\\", "").replace('"', "") != rel.replace("\\", "").replace('"', ""):
        return "relative path %r is not the target's path %r" % (rel[:80], rest[:120])
    return None


def consistent(lnk, op, dicts, res, kind="report"):
    """Perform op; compare with the dictionary reports in `dicts` ({True: full, False: short}). Returns False if it raised."""
    st, v = host.attempt(host.capture, lnk, op)
    if st == "err":
        res.bad(kind + "-raised", "%s raised %s" % (op, host.show_exc(v)))
        return False
    try:
        problem = compare(op, v, dicts)
    except Bad as e:
        problem = str(e)
    except Exception as e:  # noqa: BLE001 - not parsable
        problem = "not well-formed: %s" % host.show_exc(e)
    if problem:
        res.bad(kind + "-differs", "%s: %s" % (op, problem))
    return True


def compare(op, v, dicts):
    full = op.endswith("_all")
    d = dicts[full]
    if op in ("dict", "dict_all"):
        return None if v == d else M.diff(d, v)
    if op in ("json", "json_all"):
        got, want = host.strict_json(v), M.jsonable(d)
        return None if got == want else M.diff(want, got)
    if op in ("text", "text_all"):
        got, want = text_struct(v), M.textual(d)
        if got != want and BREAKS & set(v):  # YAML does not keep line breaks other than LF apart
            got, want = loose(got), loose(want)
        return None if got == want else M.diff(want, got)
    if op == "target":
        if not v.endswith("\n"):
            return "no end of line"
        return check_target(d, v[:-1])
    if op == "target_json":
        j = host.strict_json(v)
        if list(j) != ["shortcut_target"]:
            return "keys %r" % list(j)
        return check_target(d, j["shortcut_target"])
    return None


def pick_reports(rng, text=0.12):
    out = ["json", "json_all", "target", "target_json", "dict"]
    rng.shuffle(out)
    out = out[:rng.randrange(1, 4)]
    if rng.random() < text:
        out.insert(rng.randrange(len(out) + 1), rng.choice(["text", "text_all"]))
    return out
