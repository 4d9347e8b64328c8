"""Child process for C25/C26: runs installer code as an unprivileged user inside a scratch directory.

The package is imported through an overlay whose code files are links into /repo; only the data that the
commands copy (bundled skills, examples) are real files of the scratch directory, so that damage to the
source would be visible and harmless.
usage: fsdriver.py SCRATCH  (jobs on stdin, results on stdout)
"""
import hashlib
import io
import json
import os
import shutil
import sys
import contextlib


def snap(top):
    """Every entry below top: kind and content, links not followed."""
    out = {}
    if not os.path.lexists(top):
        return out
    stack = [""]
    while stack:
        rel = stack.pop()
        p = os.path.join(top, rel) if rel else top
        if os.path.islink(p):
            out[rel] = "l:" + os.readlink(p)
        elif os.path.isdir(p):
            out[rel] = "d"
            stack += [os.path.join(rel, n) if rel else n for n in os.listdir(p)]
        else:
            try:
                out[rel] = "f:" + hashlib.sha1(open(p, "rb").read()).hexdigest()
            except PermissionError:
                out[rel] = "f:unreadable"
    return out


def outcome(fn, *a, **k):
    o, e = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            v = fn(*a, **k)
        r = {"raised": None, "value": v}
    except SystemExit as x:
        r = {"raised": "SystemExit", "value": x.code}
    except BaseException as x:  # noqa: BLE001
        r = {"raised": type(x).__name__, "value": str(x)[:300]}
    r["out"], r["err"] = o.getvalue(), e.getvalue()
    return r


def norm(r):
    """JSON form of an outcome."""
    v = r["value"]
    if isinstance(v, list):
        v = [str(x) if not isinstance(x, dict) else {k: (y if isinstance(y, bool) else str(y)) for k, y in x.items()} for x in v]
    elif v is not None and not isinstance(v, (int, str)):
        v = str(v)
    return {"raised": r["raised"], "value": v, "out": r["out"][-2000:], "err": r["err"][-500:]}


def wipe(p):
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)


def main():
    scratch = sys.argv[1]
    jobs = json.load(sys.stdin)
    for k in (os.setgroups, os.setgid, os.setuid) if os.geteuid() == 0 else ():
        k([] if k is os.setgroups else 65534)
    os.environ.update(HOME=os.path.join(scratch, "home"), MPLCONFIGDIR=os.path.join(scratch, "mpl"), MPLBACKEND="Agg")
    os.umask(0o022)
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(scratch, "pkg"))
    os.chdir(scratch)
    kind = jobs["kind"]
    import importlib
    r = outcome(importlib.import_module, "adctoolbox.skill_cli" if kind == "skills" else "adctoolbox.cli")
    if r["raised"]:
        json.dump({"import": norm(r)}, sys.__stdout__)
        return
    if kind == "skills":
        import driver_skills as d
    else:
        import driver_examples as d
    res = d.run(scratch, jobs["jobs"], sys.modules[__name__])
    json.dump(res, sys.__stdout__)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
