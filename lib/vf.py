"""Shared machinery: TLC driver, conformance bookkeeping, evidence."""
import contextlib
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO_SRC = "/repo/python/src"
TOOLS = "/opt/veriftools/tla"
CP = f"{TOOLS}/tla2tools.jar:{TOOLS}/CommunityModules-deps.jar"

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)


class MachineryError(Exception):
    """The check itself failed; never counted as a verdict."""


class CallTimeout(Exception):
    pass


class Refused:
    """Outcome of an implementation call that raised."""

    def __init__(self, exc):
        self.exc = exc
        self.type = type(exc).__name__

    def __repr__(self):
        return f"<raised {self.type}: {str(self.exc)[:200]}>"


def _alarm(_sig, _frm):
    raise CallTimeout("implementation call did not return")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.hung = 0
        self.seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-")
        os.chmod(self.scratch, 0o755)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.samples = []
        self.tlc_runs = []
        self.exhaustive = []
        self.violations = []
        self.known = []
        self.selftests = 0
        self.notes = []
        self._kf = self._load_known()
        self._muted = False
        self._muted_hits = 0
        if "MPLCONFIGDIR" not in os.environ:
            os.environ["MPLCONFIGDIR"] = os.path.join(self.scratch, "mpl")
        signal.signal(signal.SIGALRM, _alarm)

    # ------------------------------------------------------------ scaling
    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, scen=None, name=None, workers=1, timeout=800, exhaustive=False,
            heap="3g", depth=None, simulate=None, expect_emit=True):
        """Run TLC on spec/<module>.tla with configuration text `cfg`.

        Returns the emitted records.  Any TLC error (invariant violated, evaluation error) is a
        machinery error: the model itself does not depend on the code under test.
        """
        wd = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cfgp = os.path.join(wd, f"{module}.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        env = dict(os.environ)
        env.pop("JAVA_TOOL_OPTIONS", None)
        if scen is not None:
            sp = os.path.join(wd, "scen.ndjson")
            with open(sp, "w") as f:
                for s in scen:
                    f.write(json.dumps(s) + "\n")
            env["SCEN"] = sp
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC", 
               f"-Djava.io.tmpdir={wd}", f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(wd, "md"),
               "-config", cfgp, "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd += [os.path.join(SPEC, f"{module}.tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=wd, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f"TLC timeout on {module}") from e
        out = p.stdout
        emits = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                emits.append(json.loads(line)[2:])
        if workers > 1:
            emits.sort()            # the order of parallel workers is not part of the result
        emits = [json.loads(x) for x in emits]
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if p.returncode != 0 or (m is None and not simulate):
            tail = "\n".join(x for x in out.splitlines() if not x.startswith('"@@'))[-3000:]
            raise MachineryError(f"TLC failed on {module} (exit {p.returncode}):\n{tail}\n{p.stderr[-1000:]}")
        if m:
            gen, dis = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"The number of states generated: (\d+)", out)
            gen = dis = int(m.group(1)) if m else 0
        self.states += dis
        self.transitions += gen
        self.tlc_runs.append({"module": module, "name": name or module, "generated": gen, "distinct": dis,
                              "emitted": len(emits), "exhaustive": bool(exhaustive), "wall_s": round(time.time() - t, 2)})
        if exhaustive:
            self.exhaustive.append(name or module)
        shutil.rmtree(wd, ignore_errors=True)
        if expect_emit and not emits:
            raise MachineryError(f"TLC emitted nothing for {module}")
        return emits

    # --------------------------------------------------------- calls
    def call(self, fn, *a, _limit=120, **k):
        """Call the implementation; exceptions become Refused, endless calls too."""
        self.printed = io.StringIO()
        if self.violations and (self.hung > 2 or time.time() - self.t0 > 750):
            raise MachineryError("implementation calls do not return in time")
        signal.alarm(min(_limit, 20) if self.hung else _limit)
        try:
            with warnings.catch_warnings(record=True) as self.warned, contextlib.redirect_stdout(self.printed):
                warnings.simplefilter("always")
                return fn(*a, **k)
        except (KeyboardInterrupt,):
            raise
        except SystemExit as e:
            return Refused(e)
        except CallTimeout as e:
            self.hung += 1
            return Refused(e)
        except BaseException as e:  # noqa: BLE001 - any escape is an observation
            return Refused(e)
        finally:
            signal.alarm(0)

    # ------------------------------------------------------ verdicts
    def trace(self, sample=None):
        if self._muted:
            return
        self.traces += 1
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def _load_known(self):
        kf = {}
        p = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    kf[m.group(2)] = m.group(3).strip()
        return kf

    def fail(self, clause, scenario, expected=None, got=None, key=None):
        if self._muted:
            self._muted_hits += 1
            return
        if key is not None and key in self._kf:
            if key not in self.known:
                self.known.append(key)
            return
        self.violations.append({"clause": clause, "scenario": scenario, "expected": repr(expected)[:2000],
                                "got": repr(got)[:2000]})

    def check(self, cond, clause, scenario, expected=None, got=None, key=None):
        self.comparisons += 1
        ok = bool(cond)
        if not ok:
            self.fail(clause, scenario, expected, got, key)
        return ok

    def close(self, got, exp, clause, scenario, rtol=1e-9, atol=1e-12, key=None):
        """Numeric comparison; NaN equals NaN, inf equals inf, Refused never equals."""
        import numpy as np
        self.comparisons += 1
        try:
            if isinstance(got, Refused):
                raise ValueError("raised")
            g = np.asarray(got, dtype=complex if np.iscomplexobj(got) or np.iscomplexobj(exp) else float)
            e = np.asarray(exp, dtype=g.dtype)
            ok = g.shape == e.shape and bool(np.all(np.isclose(g, e, rtol=rtol, atol=atol, equal_nan=True)))
        except (TypeError, ValueError):
            ok = False
        if not ok:
            self.fail(clause, scenario, exp, got, key)
        return ok

    def selftest(self, fn, what="binding"):
        """`fn` runs a comparison with a corrupted expectation: it must raise an objection."""
        self._muted, self._muted_hits = True, 0
        try:
            fn()
            hits = self._muted_hits
        finally:
            self._muted = False
        if not hits:
            raise MachineryError(f"self-test: corrupted expectation was accepted ({what})")
        self.selftests += 1

    # --------------------------------------------------------- finish
    def finish(self, level="model_checking", assumptions=None):
        shutil.rmtree(self.scratch, ignore_errors=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "comparisons": self.comparisons,
                "exhaustive": self.exhaustive, "tlc_runs": self.tlc_runs, "binding_selftests": self.selftests,
                "samples": self.samples or [{"note": "no behaviour sampled"}],
            },
            "assumptions": assumptions or [],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {self._kf[k]}")
        print(f"{self.pid}: states={self.states} transitions={self.transitions} traces={self.traces} "
              f"comparisons={self.comparisons} violations={len(self.violations)} wall={ev['wall_s']}s")
        if self.violations:
            od = os.path.join(ROOT, "out")
            os.makedirs(od, exist_ok=True)
            rp = os.path.join(od, f"{self.pid}-violation.json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "count": len(self.violations), "violations": self.violations[:25]}, f, indent=1, default=str)
            for v in self.violations[:3]:
                print(f"  clause: {v['clause']}\n    scenario: {json.dumps(v['scenario'], default=str)[:400]}\n"
                      f"    expected: {v['expected'][:300]}\n    got: {v['got'][:300]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.traces == 0:
            raise MachineryError("no behaviour was replayed")
        return 0


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except MachineryError as e:
        shutil.rmtree(c.scratch, ignore_errors=True)
        # Verdicts already reached stand; otherwise it is an error of the check.
        if c.violations:
            return c.finish()
        print(f"MACHINERY-ERROR {pid}: {e}", file=sys.stderr)
        return 2
    except (OSError, MemoryError, KeyboardInterrupt):
        shutil.rmtree(c.scratch, ignore_errors=True)
        traceback.print_exc()
        return c.finish() if c.violations else 2
    except Exception:  # noqa: BLE001
        # The harness only manipulates what the implementation returned: an observable of a form
        # the specification does not allow is a verdict, not a machinery failure.
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        c.fail("observable has a form the specification does not allow", {"traceback": tb[-1500:]})
        return c.finish()
    return rc


# --------------------------------------------------------------- helpers
def frac(q):
    """<<num, den>> -> float"""
    return q[0] / q[1]


def db(q):
    """10*log10 of a rational."""
    import math
    return 10 * math.log10(q[0]) - 10 * math.log10(q[1])
