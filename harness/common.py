"""Shared machinery of the checks: running TLC, comparing, reporting.

A check is decided by the TLA+ specification in /verif/spec: TLC checks the model exhaustively within
small constants, generates the behaviours and the expected values that are replayed into the code of
/repo, and validates recorded traces.  This module holds what all of the checks share.
"""
import contextlib
import json
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CASE_LIMIT = 240  # seconds before a single case counts as hanging

import numpy as np  # noqa: E402


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test"""


class CaseTimeout(Exception):
    """The code under test did not come back"""


def load_qp():
    """Import qp from the working tree of /repo"""
    src = os.path.join(REPO, "src")
    if not os.path.isdir(os.path.join(src, "qp")):
        raise HarnessError("no qp in %s" % src)
    sys.path.insert(0, src)
    import qp
    import qp.metrics

    where = os.path.realpath(os.path.dirname(qp.__file__))
    if where != os.path.realpath(os.path.join(src, "qp")):
        raise HarnessError("imported qp from %s" % where)
    return qp


class Ctx:
    """One run of one check"""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.out = sys.stdout
        self.scratch = tempfile.mkdtemp(prefix="qpv-%s-" % prop.lower())
        os.environ["MPLCONFIGDIR"] = os.path.join(self.scratch, "mpl")
        self.rng = np.random.default_rng([seed, int(prop[1:]), 7])
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.samples = []
        self.assumptions = []
        self.detail = {}
        self.violations = []
        self.findings = {}
        self.qp = None
        self._known = self._read_known()

    # ---- tier dependent sizes
    def n(self, quick, thorough):
        """Number of cases of this tier"""
        return quick if self.quick else thorough

    # ---- known findings
    def _read_known(self):
        known = {}
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                mat = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
                if mat and mat.group(1) == self.prop:
                    known[mat.group(2)] = mat.group(3)
        return known

    def known(self, key):
        """True if the finding is listed; it is then reported as known"""
        if key not in self._known:
            return False
        self.findings[key] = self.findings.get(key, 0) + 1
        return True

    # ---- verdicts
    def fail(self, clause, **detail):
        """Record a violation of a clause of the property"""
        if sum(1 for v in self.violations if v["clause"] == clause) < 3 and len(self.violations) < 30:
            self.violations.append(dict(clause=clause, **{k: jsonable(v) for k, v in detail.items()}))
        return False

    def check(self, cond, clause, **detail):
        """The condition has to hold"""
        self.comparisons += 1
        if not cond:
            return self.fail(clause, **detail)
        return True

    def close(self, got, want, clause, rtol=1e-9, atol=1e-9, **detail):
        """Two arrays of values have to agree"""
        self.comparisons += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            return self.fail(clause + ": shape", got=got.shape, want=want.shape, **detail)
        got = got.astype(float)
        want = want.astype(float)
        ok = np.abs(got - want) <= atol + rtol * np.abs(want)
        ok |= (got == want) | (np.isnan(got) & np.isnan(want))
        if not np.all(ok):
            bad = np.argwhere(~ok)[:3].tolist()
            return self.fail(
                clause, at=bad, got=[got[tuple(b)] for b in bad], want=[want[tuple(b)] for b in bad], **detail
            )
        return True

    def within(self, got, low, high, clause, tol=1e-9, **detail):
        """An array of values has to lie between two others"""
        self.comparisons += 1
        got = np.asarray(got)
        low = np.asarray(low, float)
        high = np.asarray(high, float)
        if got.shape != low.shape:
            return self.fail(clause + ": shape", got=got.shape, want=low.shape, **detail)
        got = got.astype(float)
        slack = tol * (1.0 + np.maximum(np.abs(low), np.abs(high)))
        ok = (got >= low - slack) & (got <= high + slack)
        if not np.all(ok):
            bad = np.argwhere(~ok)[:3].tolist()
            return self.fail(
                clause,
                at=bad,
                got=[got[tuple(b)] for b in bad],
                want=[[low[tuple(b)], high[tuple(b)]] for b in bad],
                **detail,
            )
        return True

    def same(self, got, want, clause, **detail):
        """Two arrays have to be identical"""
        self.comparisons += 1
        if not same_arrays(got, want):
            return self.fail(clause, got=np.asarray(got).ravel()[:8], want=np.asarray(want).ravel()[:8], **detail)
        return True

    def refused(self, func, clause, **detail):
        """The call has to raise an exception"""
        self.comparisons += 1
        try:
            with alarm(CASE_LIMIT):
                func()
        except CaseTimeout:
            return self.fail(clause + ": does not return", **detail)
        except Exception:  # pylint: disable=broad-except
            return True
        return self.fail(clause + ": not refused", **detail)

    @contextlib.contextmanager
    def case(self, clause, **detail):
        """Everything inside has to work: an exception out of the code under test is a violation"""
        try:
            with alarm(CASE_LIMIT):
                yield
        except HarnessError:
            raise
        except CaseTimeout:
            self.fail(clause + ": does not return", **detail)
        except Exception as exc:  # pylint: disable=broad-except
            trace = traceback.format_exc().strip().splitlines()
            self.fail(clause + ": raises " + type(exc).__name__, error=str(exc)[:300], trace=trace[-8:], **detail)

    def sample(self, item):
        """Keep a few of the cases for the evidence"""
        if len(self.samples) < 4:
            self.samples.append(jsonable(item))

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, sim=None, depth=None, workers=4, timeout=800, seed=None, count=True, refute=False):
        """Run TLC on a module of the specification and return what it printed with @@

        cfg : name of a configuration, or its text
        sim : number of behaviours to simulate (otherwise: exhaustive)
        """
        work = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for name in os.listdir(SPEC):
            if name.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, name), work)
        cfg = cfg or module + ".cfg"
        if "\n" in cfg:
            with open(os.path.join(work, "Run.cfg"), "w") as fout:
                fout.write(cfg)
            cfg = "Run.cfg"
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx3g", "-Xss16m", "-cp", JARS, "tlc2.TLC"]
        cmd += ["-config", cfg, "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE", "-deadlock"]
        if sim:
            cmd += ["-workers", "1", "-simulate", "num=%d" % sim, "-depth", str(depth)]
            cmd += ["-seed", str(self.seed * 7919 + 17 if seed is None else seed)]
        else:
            cmd += ["-workers", str(workers)]
        cmd.append(module + ".tla")
        full = dict(os.environ)
        full.update(env or {})
        try:
            proc = subprocess.run(
                cmd, cwd=work, env=full, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
            )
        except subprocess.TimeoutExpired as exc:
            raise HarnessError("TLC took too long on %s" % module) from exc
        text = proc.stdout
        if refute:
            # a model with a defect of the kind that the property excludes: the property has to be violated
            shutil.rmtree(work, ignore_errors=True)
            if not re.search(r"Error: (Invariant|Action property|Temporal property|Property) .*violated|Error: .* is violated", text):
                raise HarnessError("the defective model of %s is not refuted:\n%s" % (module, text[-1500:]))
            self.detail["defective_models_refuted"] = self.detail.get("defective_models_refuted", 0) + 1
            return []
        if proc.returncode != 0 or "Error:" in text:
            skip = ('"@@', "Parsing", "Semantic", "Running", "TLC2")
            lines = [l for l in text.splitlines() if not l.startswith(skip)]
            raise HarnessError("TLC failed on %s:\n%s" % (module, "\n".join(lines[-60:])[:3000]))
        gen = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if gen:
            init = re.findall(r"Finished computing initial states: (\d+)", text)
            states, trans = int(gen[-1][1]), int(gen[-1][0]) - (int(init[-1]) if init else 1)
        else:
            gen = re.findall(r"The number of states generated: ([\d,]+)", text)
            states = int(gen[-1].replace(",", "")) if gen else 0
            trans = max(0, states - (sim or 0))
        if count:
            self.states += states
            self.transitions += trans
        run = self.detail.setdefault("tlc_runs", [])
        run.append(dict(module=module, mode="simulate" if sim else "exhaustive", states=states, transitions=trans))
        out = []
        for line in text.splitlines():
            if line.startswith('"@@'):
                out.append(json.loads(json.loads(line)[2:]))
        shutil.rmtree(work, ignore_errors=True)
        return out

    def oracle(self, cases):
        """The values the specification gives for a list of cases"""
        if not cases:
            return []
        path = os.path.join(self.scratch, "cases-%d.ndjson" % self.transitions)
        with open(path, "w") as fout:
            for cas in cases:
                fout.write(json.dumps(jsonable(cas)) + "\n")
        out = self.tlc("QpOracle", env=dict(CASES=path))
        if len(out) != len(cases):
            raise HarnessError("the oracle gave %d answers to %d cases" % (len(out), len(cases)))
        self.traces += len(cases)
        self.detail["oracle_cases"] = self.detail.get("oracle_cases", 0) + len(cases)
        return out

    # ---- the end
    def finish(self):
        """Write the evidence, report, and return the exit code"""
        wall = time.time() - self.t0
        cover = dict(
            states=self.states,
            transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            samples=self.samples or [dict(note="no sample kept")],
            comparisons=self.comparisons,
            known_findings=self.findings,
        )
        cover.update(self.detail)
        evid = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level="model_checking",
            coverage=cover,
            assumptions=self.assumptions,
            wall_s=round(wall, 2),
            violations=len(self.violations),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fout:
            json.dump(jsonable(evid), fout, indent=1)
        say = lambda text: print(text, file=self.out, flush=True)  # noqa: E731
        for key, text in self._known.items():
            if key in self.findings:
                say("KNOWN-FINDING: property=%s %s (%d times)" % (self.prop, text, self.findings[key]))
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            seen = set()
            for i, vio in enumerate(self.violations):
                if vio["clause"] in seen or len(seen) >= 5:
                    continue
                seen.add(vio["clause"])
                path = os.path.join(VERIF, "replays", "%s-%d.json" % (self.prop, i))
                rec = dict(property=self.prop, seed=self.seed, tier=self.tier, violation=vio)
                rec["command"] = "cd /verif && VERIF_SEED=%d ./check %s %s" % (self.seed, self.prop, self.tier)
                with open(path, "w") as fout:
                    json.dump(jsonable(rec), fout, indent=1)
                say("VIOLATION property=%s replay=%s" % (self.prop, path))
                say("  " + json.dumps(vio)[:700])
            return 1
        say(
            "%s %s: held on %d traces, %d comparisons, %d model states (%.1f s)"
            % (self.prop, self.tier, self.traces, self.comparisons, self.states, wall)
        )
        return 0


# ---------------------------------------------------------------------------
@contextlib.contextmanager
def alarm(seconds):
    """Raise CaseTimeout if the body takes too long"""

    def handler(signum, frame):
        raise CaseTimeout("no answer in %d s" % seconds)

    old = signal.signal(signal.SIGALRM, handler)
    left = signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(left if left else 0)
        signal.signal(signal.SIGALRM, old)


def jsonable(val):
    """Make a value fit for json"""
    if isinstance(val, dict):
        return {str(k): jsonable(v) for k, v in val.items()}
    if isinstance(val, (list, tuple)):
        return [jsonable(v) for v in val]
    if isinstance(val, np.ndarray):
        if val.size > 400:
            return dict(shape=list(val.shape), head=jsonable(val.ravel()[:20]))
        return jsonable(val.tolist())
    if isinstance(val, np.generic):
        return jsonable(val.item())
    if isinstance(val, Fraction):
        return [val.numerator, val.denominator]
    if isinstance(val, bytes):
        return val.decode("latin1")
    if isinstance(val, float) and not math.isfinite(val):
        return str(val)
    if val is None or isinstance(val, (str, int, float, bool)):
        return val
    return repr(val)[:200]


def rat(frac):
    """A fraction as a pair for the specification"""
    frac = Fraction(frac)
    return [frac.numerator, frac.denominator]


def rats(fracs):
    """A list of fractions"""
    return [rat(f) for f in fracs]


def flt(val):
    """Rationals of the specification (nested lists of pairs) as an array of floats"""

    def conv(item):
        if len(item) == 2 and not isinstance(item[0], list) and not isinstance(item[1], list):
            return item[0] / item[1]
        return [conv(x) for x in item]

    return np.array(conv(val), float) if val else np.zeros(0)


def same_arrays(one, two):
    """True if two arrays (or sparse values) are the same"""
    one = np.asarray(one)
    two = np.asarray(two)
    if one.shape != two.shape:
        return False
    if one.dtype.kind in "fc" and two.dtype.kind in "fc":
        return bool(np.all((one == two) | (np.isnan(one) & np.isnan(two))))
    return bool(np.all(one == two))


def snapshot(val):
    """A deep copy for comparing later"""
    if isinstance(val, dict):
        return {k: snapshot(v) for k, v in val.items()}
    if isinstance(val, (list, tuple)):
        return [snapshot(v) for v in val]
    if isinstance(val, np.ndarray):
        return val.copy()
    return val


def unchanged(now, then):
    """True if a value still is what the snapshot says"""
    if isinstance(then, dict):
        return isinstance(now, dict) and list(now) == list(then) and all(unchanged(now[k], then[k]) for k in then)
    if isinstance(then, list):
        return len(now) == len(then) and all(unchanged(a, b) for a, b in zip(now, then))
    if isinstance(then, np.ndarray):
        return now.dtype == then.dtype and same_arrays(now, then)
    return now is then or now == then


def main(prop, tier, runner):
    """Run a check"""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    code = 2
    try:
        import logging

        logging.disable(logging.CRITICAL)
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        real = os.dup(1)
        ctx.out = os.fdopen(real, "w")
        null = open(os.devnull, "w")
        sys.stdout = null
        with ctx.case("qp can be imported"):
            ctx.qp = load_qp()
        if ctx.qp is not None:
            os.chdir(ctx.scratch)
            runner(ctx)
        code = ctx.finish()
    except HarnessError as exc:
        print("ERROR in the machinery of %s: %s" % (prop, exc), file=sys.stderr)
        code = 2
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        code = 2
    finally:
        os.chdir("/")
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    ctx.out.flush()
    os._exit(code)
