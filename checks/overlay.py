"""A package tree whose code is /repo's (links) and whose data directory is a scratch copy."""
import json
import os
import shutil
import subprocess
import sys

from lib.vf import REPO_SRC, ROOT, MachineryError


def build(c, data):
    """Overlay with the sub-path `data` (e.g. '_bundled_skills') as real files."""
    scratch = os.path.join(c.scratch, "fs")
    pkg = os.path.join(scratch, "pkg", "adctoolbox")
    os.makedirs(pkg)
    src = os.path.join(REPO_SRC, "adctoolbox")
    for n in os.listdir(src):
        if n == "__pycache__":
            continue
        if n == data:
            shutil.copytree(os.path.join(src, n), os.path.join(pkg, n), ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
            for a, _, fs in os.walk(os.path.join(pkg, n)):
                for f in fs:
                    if f.endswith(".py") and data.startswith("_"):
                        os.unlink(os.path.join(a, f))
                        os.symlink(os.path.join(src, n, os.path.relpath(os.path.join(a, f), os.path.join(pkg, n))), os.path.join(a, f))
        else:
            os.symlink(os.path.join(src, n), os.path.join(pkg, n))
    os.makedirs(os.path.join(scratch, "home"))
    os.makedirs(os.path.join(scratch, "mpl"))
    return scratch, pkg


def own(scratch):
    if os.geteuid() != 0:
        return
    os.chown(scratch, 65534, 65534)
    for a, ds, fs in os.walk(scratch):
        for n in ds + fs:
            os.lchown(os.path.join(a, n), 65534, 65534)


def drive(c, scratch, kind, jobs):
    own(scratch)
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
    p = subprocess.run([sys.executable, os.path.join(ROOT, "lib", "fsdriver.py"), scratch], input=json.dumps({"kind": kind, "jobs": jobs}),
                       capture_output=True, text=True, timeout=700, env=env, cwd="/")
    if p.returncode != 0:
        raise MachineryError(f"driver failed ({p.returncode}): {p.stderr[-2000:]}")
    res = json.loads(p.stdout)
    if "import" in res:
        c.fail("the command loads without doing anything", {}, None, res["import"])
        raise MachineryError("nothing to drive")
    return res


def settle(c, res):
    """A history whose preparation became impossible has left the specification before: that must have been objected to."""
    lost = [j["lost"] for j in res["jobs"] if j.get("lost")]
    if lost and not c.violations:
        raise MachineryError(f"driver lost track: {lost[0]}")
