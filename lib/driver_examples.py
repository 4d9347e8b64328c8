"""Executes histories of ExampleCopy.tla against the real command (inside the unprivileged child)."""
import os
import shutil
import sys


def run(scratch, jobs, fd):
    from adctoolbox import cli
    ex = os.path.join(scratch, "pkg", "adctoolbox", "examples")
    ws = os.path.join(scratch, "ws")
    names = {"default": None, "named": "my examples", "nested": "deep/er/examples", "absolute": os.path.join(scratch, "abs", "examples")}
    path = {"default": f"{ws}/adctoolbox_examples", "named": f"{ws}/my examples", "nested": f"{ws}/deep/er/examples", "absolute": names["absolute"]}
    hard = os.path.join(ex, "01_basic", "zz_locked.py")
    out = {"src": fd.snap(ex), "paths": path, "jobs": []}

    def change(d, v):
        p = path[d]
        if v == "edited":
            f = sorted(os.path.join(a, n) for a, _, fs in os.walk(p) for n in fs)
            open(f[len(f) // 2], "a").write("# mine\n")
            os.unlink(f[0])
            return
        fd.wipe(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if v == "copy":
            shutil.copytree(ex, p, ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        elif v == "emptydir":
            os.mkdir(p)
        elif v == "otherdir":
            os.mkdir(p)
            open(p + "/work.txt", "w").write("work\n")
        elif v == "file":
            open(p, "w").write("a file\n")
        elif v == "link":
            os.symlink(f"{scratch}/elsewhere", p)
        elif v == "dangling":
            os.symlink(f"{scratch}/nowhere", p)
        elif v == "linktocopy":
            os.symlink(ex, p)

    def look():
        t = {"ws/" + k: v for k, v in fd.snap(ws).items()}
        t.update({"abs/" + k: v for k, v in fd.snap(scratch + "/abs").items()})
        t.update({"elsewhere/" + k: v for k, v in fd.snap(scratch + "/elsewhere").items()})
        t.update({"nowhere": "present"} if os.path.lexists(scratch + "/nowhere") else {})
        return t

    for job in jobs:
        for p in (ws, scratch + "/abs", scratch + "/elsewhere"):
            fd.wipe(p)
            os.makedirs(p)
        open(scratch + "/elsewhere/precious.txt", "w").write("precious\n")
        open(ws + "/mine.txt", "w").write("mine\n")
        os.chmod(hard, 0o644)
        for d, v in job["start"].items():
            if v != "none":
                if v == "edited":
                    change(d, "copy")
                change(d, v)
        if not job["ok0"]:
            os.chmod(hard, 0)
        steps = []
        lost = None
        try:
            for h in job["hist"]:
                do = h["do"]
                os.chdir(ws)
                pre, r = look(), None
                if do["act"] == "copy":
                    old = sys.argv
                    sys.argv = ["adctoolbox-get-examples"] + ([] if names[do["d"]] is None else [names[do["d"]]])
                    try:
                        r = fd.norm(fd.outcome(cli.copy_examples))
                    finally:
                        sys.argv = old
                elif do["act"] == "change":
                    change(do["d"], do["to"])
                else:
                    os.chmod(hard, 0 if do["on"] else 0o644)
                post = look()
                # keep the exchange small: only what changed
                steps.append({"gone": sorted(k for k in pre if k not in post), "new": {k: v for k, v in post.items() if pre.get(k) != v},
                              "changed": sorted(k for k in pre if k in post and pre[k] != post[k]), "r": r,
                              "before": bool(os.path.lexists(path[do["d"]])) if do["d"] else None})
        except Exception as e:  # noqa: BLE001
            lost = repr(e)
        os.chmod(hard, 0o644)
        out["jobs"].append({"steps": steps, "lost": lost})
    os.chdir(scratch)
    out["srcafter"] = fd.snap(ex)
    for p in (ws, scratch + "/abs", scratch + "/elsewhere"):
        fd.wipe(p)
    return out
