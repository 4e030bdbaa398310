"""In a fresh interpreter: does importing and using the library change the state of the host?"""
import json
import os
import sys
import warnings


def main():
    j = json.loads(sys.stdin.buffer.read())
    from sim import outcome, state
    import contextlib
    import io
    warnings.filters[:] = []
    warnings.simplefilter("ignore", SyntaxWarning)
    warnings.simplefilter("default", UserWarning)
    sys.setrecursionlimit(j["limit"])
    seen = []
    warnings.showwarning = lambda *a, **k: seen.append(1)
    text, err = io.StringIO(), io.StringIO()
    out = []
    with state.Watch() as w:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(err):
            a = state.snapshot()
            w.on()
            from LnkParse3.lnk_file import LnkFile
            outcome.all_of(LnkFile, bytes.fromhex(j["data"]), j["cp"], True, j["ops"], text)
            out += ["wrote: " + x for x in w.off()]
            b = state.snapshot(before=a)
    out += state.changes(a, b) + ["wrote: " + x for x in w.written]
    if err.getvalue():
        out.append("standard error received %r" % err.getvalue()[:200])
    os.write(1, json.dumps(out).encode("ascii"))


main()
