"""C25: the skill installer."""
import os

from checks import overlay

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Depth = {depth}
INVARIANTS NoForceKeeps OnlyRequested ForceInstalls UnknownWritesNothing StatusChangesNothing SyncedIff EmitDone
CHECK_DEADLOCK FALSE
"""
FULL = {"user": "adctoolbox-user-guide", "dev": "adctoolbox-contributor-guide"}


def run(c):
    r = c.rng
    one = c.tlc("SkillInstall", CFG.format(mode="step", depth=1), name="SkillInstall/every state, every call", exhaustive=True, workers=4)
    n1 = c.n(1500, 12000)
    one = one if len(one) <= n1 else r.sample(one, n1)
    walks = []
    for d, k in ((4, c.n(80, 600)), (9, c.n(60, 500))):
        walks += c.tlc("SkillInstall", CFG.format(mode="walk", depth=d), name=f"SkillInstall/walks of {d}", simulate=k, depth=d + 1)[:k]
    jobs = one + walks
    var = lambda: {"pick": r.randrange(1000), "cli": r.random() < .5, "abs": r.random() < .5}  # noqa: E731
    for j in jobs:
        j["var"], j["vars"] = var(), [var() for _ in j["hist"]]
    scratch, _ = overlay.build(c, "_bundled_skills")
    res = overlay.drive(c, scratch, "skills", jobs)
    src = res["srcsnap"]
    c.check(res["available"] == list(FULL.values()), "bundled skills", {}, list(FULL.values()), res["available"])
    c.check(all(len(s) > 2 for s in src.values()), "bundled skills have content", {}, None, {k: len(v) for k, v in src.items()})
    c.check(res["srcafter"] == src, "the bundled skills are never modified", {})
    c.check(res["nodest"]["raised"] is not None and res["nodest"]["value"] != 0, "no destination, no installation", {}, None, res["nodest"])
    c.check(all(n in res["list"]["out"] for n in FULL.values()) and res["list"]["value"] == 0, "the list names every bundled skill", {}, None, res["list"])

    c.check(res["listonly"]["value"] == 0 and not res["listmade"], "listing installs nothing", {}, None, res["listonly"])
    for j, out in zip(jobs, res["jobs"]):
        c.check(not out["broken"], "the bundled skills are never modified", {"root": j["root0"], "start": j["start"], "history": [h["do"]["act"] for h in j["hist"]]}, None, out["broken"])

    def tree(st, which):
        t = {"area/" + k: v for k, v in st[which].items()}
        t.update({"home/" + k: v for k, v in st[which + "home"].items()})
        return t

    def judge(j, out, corrupt=False):
        root0 = j["root0"]
        base = ("home/skills" if root0 == "home" else "area/" + out["real"])

        def under(t, s):
            p = f"{base}/{FULL[s]}"
            return {k for k in t if k == p or k.startswith(p + "/")}

        def put(t, s, ed):
            t = {k: v for k, v in t.items() if k not in under(t, s)}
            p = f"{base}/{FULL[s]}"
            if ed:
                t[p] = "l:" + res["src"][s]
            else:
                t.update({(p + "/" + k if k else p): v for k, v in src[s].items()})
            return t

        for i, (h, st) in enumerate(zip(j["hist"], out["steps"])):
            do, q = h["do"], st["r"]
            sc = {"root": root0, "start": j["start"], "step": i, "history": [{k: v for k, v in x["do"].items() if k not in ("pre", "preroot", "rows")} for x in j["hist"][:i + 1]],
                  "through": "command line" if st["cli"] else "function", "dest": st["dest"]}
            if do["act"] == "tamper":
                continue
            pre, post = tree(st, "pre"), tree(st, "post")
            refused = q["raised"] is not None or (st["cli"] and q["value"] != 0)
            if corrupt:
                refused = not refused
            if not c.check(refused == do["refused"], "the call is refused exactly when it must be", sc, do["refused"], q):
                return
            if do["act"] == "status":
                c.check(pre == post, "status changes nothing", sc)
                if do["refused"]:
                    continue
                want = [(FULL[w["name"]], w["installed"], w["mode"], w["synced"]) for w in do["rows"]]
                if st["cli"]:
                    got, cur = [], {}
                    for ln in q["out"].splitlines():
                        if ln.startswith("- "):
                            cur = {"name": ln[2:].strip()}
                            got.append(cur)
                        elif ":" in ln and got:
                            k, v = ln.split(":", 1)
                            cur[k.strip()] = v.strip()
                    got = [(g.get("name"), g.get("installed") == "yes", g.get("mode"), g.get("synced") == "yes") for g in got]
                else:
                    got = [(g["name"], g["installed"], g["mode"], g["synced"]) for g in q["value"]]
                c.check(got == want, "status is truthful", sc, want, got)
                c.trace()
                continue
            # an installation
            exp = dict(pre)
            known = all(n in FULL for n in do["names"])
            if known and root0 not in ("file", "underfile"):
                parts = base.split("/")
                for k in range(1, len(parts) + 1):
                    exp.setdefault("/".join(parts[:k]) if k > 1 else parts[0] + "/", "d")
            if do["refused"]:
                if not st["cli"]:
                    kind = "ValueError" if not known else ("FileExistsError" if root0 != "underfile" else None)
                    c.check(kind is None or q["raised"] == kind, "refused with the stated error", sc, kind, q)
                for s in do["free"]:              # may or may not have been installed before the refusal
                    if under(post, s):
                        exp = put(exp, s, do["ed"])
            else:
                for s in set(do["order"]):
                    exp = put(exp, s, do["ed"])
                names = [FULL[s] for s in do["order"]]
                if st["cli"]:
                    got = [os.path.basename(ln[2:].strip()) for ln in q["out"].splitlines() if ln.startswith("- ")]
                    c.check(got == names, "the report names what was installed", sc, names, got)
                    c.check(("symlink" in q["out"]) == bool(do["ed"]), "the report names the mode", sc)
                else:
                    got = [os.path.basename(v) for v in q["value"]]
                    c.check(got == names, "the installed paths are returned", sc, names, got)
            if not c.check(post == exp, "exactly the requested skills change", sc, {k: v for k, v in exp.items() if post.get(k) != v}, {k: v for k, v in post.items() if exp.get(k) != v}):
                return
            # where the model and the tree differ legitimately (refusal part-way), the rest of the history is another one
            if do["refused"] and any(bool(under(post, s)) != (h["fs"][s] != "none") for s in FULL):
                return
            c.trace({k: v for k, v in sc.items() if k != "dest"} if i == 0 else None)

    for j, out in zip(jobs, res["jobs"]):
        judge(j, out)
    c.selftest(lambda: [judge(j, o, True) for j, o in list(zip(jobs, res["jobs"]))[:20]])
    overlay.settle(c, res)
