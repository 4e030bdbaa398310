"""Run in an interpreter of its own: opens links and reports them, prints the outcomes as ASCII JSON."""
import json
import os
import sys


def main():
    todo = json.loads(sys.stdin.buffer.read())
    jobs = todo["jobs"]
    import contextlib
    import io
    import warnings
    warnings.showwarning = lambda *a, **k: None
    if todo["acts"]:
        import importlib.util
        from sim import curious
        home = os.path.dirname(importlib.util.find_spec("LnkParse3").origin)
        for a in todo["acts"]:
            curious.act(home, a)
    from LnkParse3.lnk_file import LnkFile
    from sim import outcome
    out = []
    for j in jobs:
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            out.append(outcome.all_of(LnkFile, bytes.fromhex(j["data"]), j["cp"], j["terminal"], j["ops"], text))
    os.write(1, json.dumps(out).encode("ascii"))


main()
