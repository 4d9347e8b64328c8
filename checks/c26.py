"""C26: copying the examples."""
import os

from checks import overlay
from lib.vf import REPO_SRC

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Depth = {depth}
INVARIANTS NeverOverwrites OnlyDestination SuccessMeansComplete SecondRefused EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    r = c.rng
    one = c.tlc("ExampleCopy", CFG.format(mode="step", depth=1), name="ExampleCopy/every state, every call", exhaustive=True, workers=4)
    lim = c.n(400, 2000)
    one = one if len(one) <= lim else r.sample(one, lim)
    walks = []
    for d, k in ((4, c.n(60, 300)), (10, c.n(40, 300))):
        walks += c.tlc("ExampleCopy", CFG.format(mode="walk", depth=d), name=f"ExampleCopy/walks of {d}", simulate=k, depth=d + 1)[:k]
    jobs = one + walks
    scratch, pkg = overlay.build(c, "examples")
    ex = os.path.join(pkg, "examples")
    # byte-code caches, hidden files, empty directories, names with blanks
    for p, t in (("01_basic/__pycache__/a.cpython-312.pyc", "x"), ("__pycache__/b.pyc", "x"), ("02_spectrum/stray.pyc", "x"), ("02_spectrum/.hidden", "h"),
                 ("new dir/with blank.py", "print()\n"), ("01_basic/zz_locked.py", "locked\n"), ("02_spectrum/data.bin", "\0\1")):
        os.makedirs(os.path.dirname(os.path.join(ex, p)), exist_ok=True)
        with open(os.path.join(ex, p), "w") as f:
            f.write(t)
    res = overlay.drive(c, scratch, "examples", jobs)
    cached = lambda k: k.endswith(".pyc") or "__pycache__" in k.split("/")  # noqa: E731
    want = {k: v for k, v in res["src"].items() if not cached(k)}
    assert len(want) < len(res["src"])
    real = os.path.join(REPO_SRC, "adctoolbox", "examples")
    n_real = sum(1 for a, _, fs in os.walk(real) for f in fs if "__pycache__" not in a and not f.endswith(".pyc"))
    c.check(sum(v.startswith("f:") for v in want.values()) >= n_real > 20, "examples are shipped", {}, None, n_real)
    c.check(res["src"] == res["srcafter"], "the shipped examples are never modified", {})
    rel = {d: (("abs/examples" if d == "absolute" else "ws/" + os.path.relpath(p, scratch + "/ws"))) for d, p in res["paths"].items()}

    # an implementation that looks its files up through resolved links uses /repo's own directory
    if not any("new dir" in k for o in res["jobs"] for st in o["steps"] for k in st["new"]):
        from lib import fsdriver
        own = {k: v for k, v in fsdriver.snap(real).items() if not cached(k)}
        if any({k[len(rel[h["do"]["d"]]):].lstrip("/"): v for k, v in st["new"].items() if k.startswith(rel[h["do"]["d"]])} == own
               for j, o in zip(jobs, res["jobs"]) for h, st in zip(j["hist"], o["steps"]) if h["do"]["act"] == "copy"):
            want = own
            keep = [k for k, j in enumerate(jobs) if j["ok0"] and not any(h["do"]["act"] == "fault" for h in j["hist"])]
            jobs, res["jobs"] = [jobs[k] for k in keep], [res["jobs"][k] for k in keep]

    def judge(j, out, corrupt=False):
        for i, (h, st) in enumerate(zip(j["hist"], out["steps"])):
            do, q = h["do"], st["r"]
            if do["act"] != "copy":
                continue
            sc = {"start": j["start"], "readable": j["ok0"], "step": i, "history": [{k: v for k, v in x["do"].items() if k in ("act", "d", "to", "on")} for x in j["hist"][:i + 1]]}
            success = q["raised"] is None or (q["raised"] == "SystemExit" and q["value"] in (0, None))
            if corrupt:
                success = not success
            if not c.check(success == do["success"], "the copy succeeds exactly when nothing of that name exists", sc, do["success"], q):
                return
            c.check(not st["gone"] and not st["changed"], "nothing that existed is changed or removed", sc, None, [st["gone"][:5], st["changed"][:5]])
            top = rel[do["d"]]
            new = {k: v for k, v in st["new"].items()}
            parents = {top[:k] for k in range(len(top)) if top[k] == "/"}
            inside = {k[len(top):].lstrip("/"): v for k, v in new.items() if k == top or k.startswith(top + "/")}
            outside = {k: v for k, v in new.items() if not (k == top or k.startswith(top + "/"))}
            c.check(all(k in parents and v == "d" for k, v in outside.items()), "nothing is written outside the destination", sc, None, sorted(outside)[:5])
            if do["success"]:
                miss = sorted(k for k in want if inside.get(k) != want[k])
                more = sorted(k for k in inside if k not in want)
                c.check(not miss and not more, "exactly the shipped files are copied", sc, [], {"missing or different": miss[:5], "additional": more[:5]})
                c.check("rror" not in q["out"], "success is reported", sc, None, q["out"][:200])
            elif do["exact"]:
                c.check(not new, "a refused copy writes nothing", sc, [], sorted(new)[:5])
                c.check(q["value"] not in (0, None), "refused with an error status", sc, None, q)
            if not do["exact"]:
                return            # what a failed copy leaves behind is not specified
            c.trace(sc if i == 0 else None)

    for j, out in zip(jobs, res["jobs"]):
        judge(j, out)
    c.selftest(lambda: [judge(j, o, True) for j, o in list(zip(jobs, res["jobs"]))[:20]])
    overlay.settle(c, res)
