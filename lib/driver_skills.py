"""Executes histories of SkillInstall.tla against the real installer (inside the unprivileged child)."""
import os
import shutil

ALIAS = {"user": ["user", "user-guide", "adctoolbox-user-guide"], "dev": ["dev", "contributor", "contributor-guide", "adctoolbox-contributor-guide"],
         "bogus": ["bogus", "", "../evil", "User", "adctoolbox", ".", "adctoolbox-user-guide/references"]}
FULL = {"user": "adctoolbox-user-guide", "dev": "adctoolbox-contributor-guide"}


def run(scratch, jobs, fd):
    from adctoolbox import skill_cli as sk
    src = {s: str(sk.bundled_skill_dir(n)) for s, n in FULL.items()}
    area = os.path.join(scratch, "area")
    pristine = {s: shutil.copytree(p, os.path.join(scratch, "pristine", s), symlinks=True) for s, p in src.items()}
    out = {"src": src, "srcsnap": {s: fd.snap(p) for s, p in src.items()}, "available": outcome_list(sk), "jobs": []}

    def dest_of(kind):
        return {"dir": "skills", "absent": "skills", "linked": "lnk", "nested": "a/b/skills", "home": "~/skills", "file": "skills", "underfile": "plain/skills"}[kind]

    def real(kind):
        return {"linked": f"{area}/realskills", "home": f"{scratch}/home/skills"}.get(kind, os.path.join(area, dest_of(kind)))

    def tamper(root, s, v, var):
        p = os.path.join(real(root), FULL[s])
        files = sorted(os.path.relpath(os.path.join(a, f), src[s]) for a, _, fs in os.walk(src[s]) for f in fs)
        if v in ("edited", "touched", "missing", "extra", "funny"):
            fd.wipe(p)
            shutil.copytree(src[s], p)
            f = os.path.join(p, files[var["pick"] % len(files)])
            if v == "edited":
                with open(f, "ab") as h:
                    h.write(b"edited by hand\n")
            elif v == "touched":            # same size, same modification time, other content
                st = os.stat(f)
                b = bytearray(open(f, "rb").read())
                k = var["pick"] * 7 % len(b)
                b[k] = (b[k] + 1) % 256
                with open(f, "wb") as h:
                    h.write(bytes(b))
                os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
            elif v == "missing":
                if os.path.lexists(f):
                    os.unlink(f)
                if var["pick"] % 3 == 0:
                    shutil.rmtree(os.path.join(p, "references"), ignore_errors=True)
            elif v == "extra":
                e = os.path.join(p, ["notes.md", "references/more.md", ".hidden", "references/newdir"][var["pick"] % 4])
                os.makedirs(os.path.dirname(e), exist_ok=True)
                if e.endswith("newdir"):
                    os.makedirs(e, exist_ok=True)
                else:
                    open(e, "w").write("mine\n")
            else:
                if var["pick"] % 2 and os.path.isdir(os.path.join(p, "references")):
                    shutil.rmtree(os.path.join(p, "references"))
                    open(os.path.join(p, "references"), "w").write("not a directory\n")
                else:
                    if os.path.lexists(f):
                        os.unlink(f)
                    os.makedirs(f)
            return
        fd.wipe(p)
        if v == "emptydir":
            os.mkdir(p)
        elif v == "file":
            open(p, "w").write("a file of that name\n")
        elif v == "foreign":
            os.symlink(f"{area}/elsewhere", p)
        elif v == "dangling":
            os.symlink(f"{area}/nowhere", p)
        elif v == "cross":
            os.symlink(src["dev" if s == "user" else "user"], p)
        elif v == "copy":
            shutil.copytree(src[s], p)
        elif v == "link":
            os.symlink(src[s], p)

    for job in jobs:
        fd.wipe(area)
        fd.wipe(os.path.join(scratch, "home"))
        os.makedirs(f"{area}/elsewhere/deep")
        os.makedirs(os.path.join(scratch, "home"))
        open(f"{area}/elsewhere/precious.txt", "w").write("precious\n")
        open(f"{area}/elsewhere/deep/more.txt", "w").write("precious too\n")
        open(f"{area}/plain", "w").write("plain file\n")
        os.chdir(area)
        root = job["root0"]
        if root in ("dir", "linked", "home"):
            d = real(root)
            os.makedirs(d)
            if root == "linked":
                os.symlink(d, f"{area}/lnk")
            os.makedirs(f"{d}/other-skill")
            open(f"{d}/other-skill/SKILL.md", "w").write("somebody else's\n")
            open(f"{d}/README", "w").write("keep\n")
        elif root == "file":
            open(f"{area}/skills", "w").write("in the way\n")
        for s, v in job["start"].items():
            if v != "none":
                tamper(root, s, v, job["var"])
        steps = []
        where = root
        lost = None
        try:
            for st, var in zip(job["hist"], job["vars"]):
                do = st["do"]
                pre = fd.snap(area)
                prehome = fd.snap(os.path.join(scratch, "home"))
                dest = dest_of(where)
                if var["abs"] and not dest.startswith("~"):
                    dest = os.path.join(area, dest)
                r = None
                if do["act"] == "tamper":
                    tamper("dir" if where == "absent" else where, do["skill"], do["to"], var)
                else:
                    names = [ALIAS[n][(var["pick"] + i) % len(ALIAS[n])] for i, n in enumerate(do["names"])]
                    if var["cli"]:
                        argv = list(names) + ["--dest", dest]
                        argv += {"no": [], "dev": ["--dev"], "all": ["--all"]}[do["flag"]]
                        if do["act"] == "status":
                            argv += ["--status"] + [[], [], ["--force"], ["--editable"], ["--upgrade", "--editable"]][var["pick"] % 5]
                        else:
                            argv += ([["--force"], ["--upgrade"]][var["pick"] % 2] if do["force"] else []) + (["--editable"] if do["ed"] else [])
                        r = fd.norm(fd.outcome(sk.main, argv))
                    else:
                        kw = {"install_dev": do["flag"] == "dev", "install_all": do["flag"] == "all"}
                        from pathlib import Path
                        d = Path(dest) if var["pick"] % 2 else dest
                        if do["act"] == "status":
                            r = fd.norm(fd.outcome(sk.skill_status, names, dest=d, **kw))
                        else:
                            r = fd.norm(fd.outcome(sk.install_bundled_skills, names, dest=d, overwrite=do["force"], editable=do["ed"], **kw))
                steps.append({"pre": pre, "post": fd.snap(area), "prehome": prehome, "posthome": fd.snap(os.path.join(scratch, "home")), "r": r, "cli": var["cli"], "dest": dest})
        except Exception as e:  # noqa: BLE001
            lost = repr(e)
        # damage to the bundled skills is noted and made good, so that the later histories mean something
        broken = [s for s, p in src.items() if fd.snap(p) != out["srcsnap"][s]]
        for s in broken:
            fd.wipe(src[s])
            shutil.copytree(pristine[s], src[s], symlinks=True)
        out["jobs"].append({"steps": steps, "lost": lost, "broken": broken, "real": os.path.relpath(real(root), area)})
    os.chdir(scratch)
    out["srcafter"] = {s: fd.snap(p) for s, p in src.items()}
    out["list"] = fd.norm(fd.outcome(sk.main, ["--list"]))
    os.makedirs(area, exist_ok=True)
    out["listonly"] = fd.norm(fd.outcome(sk.main, ["user", "--list", "--force", "--dest", os.path.join(area, "listed")]))
    out["listmade"] = os.path.exists(os.path.join(area, "listed"))
    out["nodest"] = fd.norm(fd.outcome(sk.main, ["user"]))
    fd.wipe(area)
    return out


def outcome_list(sk):
    try:
        return list(sk.available_skill_names())
    except Exception as e:  # noqa: BLE001
        return [repr(e)]
