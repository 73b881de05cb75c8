"""Shared machinery: case execution, violations, replay artefacts, evidence, parallel enumeration.

A check module (mc/c01.py ...) defines `run(rep, tier)`.  It enumerates cases; a case is a call
`fn(rep, *args)` of a function of that module with JSON-able arguments.  The function executes the real
code from /repo and raises `Violation` when the observed behaviour differs from the oracle.  For
schedule exploration the case function receives a `Chooser` (see mc/explore.py) and the recorded choices
are part of the case, so every violation can be replayed with `./replay FILE`.
"""
import json
import logging
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

MAX_VIOLATIONS = 5
# a change that multiplies the schedules (polling, say) must not turn into a check without an answer
BUDGET = {"quick": 480.0, "thorough": 5400.0}
MAX_SAMPLES = 6


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(KeyboardInterrupt):
    """The code under test did not come back in time (KeyboardInterrupt passes through asyncio)."""


class CheckError(Exception):
    """The machinery itself is broken (never reported as a violation)."""


def import_pyown():
    """Import the package from the working tree under test; a failing import is a violation of anything."""
    import pyown  # noqa: F401

    where = os.path.realpath(pyown.__file__ or "")
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise CheckError(f"pyown imported from {where}, not from {REPO}")


def expect(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def same(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


def _on_alarm(signum, frame):
    raise Hang("time limit of the case exceeded")


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.coverage = {}
        self.assumptions = []
        self.t0 = time.time()
        self.module = None
        self.case_limit = 20.0
        self.stop = False
        self.budget = float(os.environ.get("VERIF_BUDGET") or BUDGET.get(tier, 480.0))
        self.findings = load_findings(prop)

    # -- counting ---------------------------------------------------------------------------------
    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def sample(self, s):
        if len(self.samples) < MAX_SAMPLES:
            self.samples.append(s)

    def cover(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def out_of_time(self):
        """The budget is used up: the enumeration is truncated, which the evidence reports."""
        if time.time() - self.t0 < self.budget:
            return False
        self.coverage["truncated_by_time_budget"] = 1
        return True

    # -- violations -------------------------------------------------------------------------------
    def violation(self, fn, args, detail, choices=None):
        key = finding_key(self.findings, fn, args, detail)
        if key is not None:
            if key not in self.known:
                self.known.append(key)
            return
        self.violations.append(
            {"property": self.prop, "fn": fn, "args": args, "choices": choices, "detail": detail}
        )
        if len(self.violations) >= MAX_VIOLATIONS:
            self.stop = True

    # -- single case ------------------------------------------------------------------------------
    def call(self, fn, *args, limit=None, choices=None, kwargs=None):
        """Run one case under the watchdog; returns the result or None after recording a violation."""
        limit = limit or self.case_limit
        signal.setitimer(signal.ITIMER_PROF, limit)  # processor time: independent of the machine's load
        signal.setitimer(signal.ITIMER_REAL, max(120.0, 4 * limit))  # blocked without using the processor
        try:
            return fn(self, *args, **(kwargs or {}))
        except Violation as e:
            detail = str(e)
        except Hang:
            detail = f"no result within {limit} s of processor time\n" + traceback.format_exc(limit=-6)
        except CheckError:
            raise
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # an exception the oracle does not allow
            detail = f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-8)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
        if callable(choices):
            choices = choices()
        self.violation(fn.__name__, list(args), detail, choices)
        return None

    # -- enumerations -----------------------------------------------------------------------------
    def each(self, fn, cases, limit=None):
        for args in cases:
            if self.stop or self.out_of_time():
                return
            self.call(fn, *args, limit=limit)

    def parallel(self, jobs, workers=None):
        """jobs: list of callables job(rep); distributed over forked processes, results merged."""
        workers = min(workers or ncpu(), len(jobs))
        if workers <= 1 or os.environ.get("VERIF_SERIAL"):
            for j in jobs:
                if not self.stop and not self.out_of_time():
                    j(self)
            return
        pids = []
        for w in range(workers):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    sub = Report(self.prop, self.tier, self.seed)
                    sub.module = self.module
                    sub.case_limit = self.case_limit
                    sub.t0, sub.budget = self.t0, self.budget
                    err = None
                    try:
                        for j in jobs[w::workers]:
                            if sub.stop or sub.out_of_time():
                                break
                            j(sub)
                    except BaseException:
                        err = traceback.format_exc()
                    data = pickle.dumps(
                        (
                            sub.states,
                            sub.transitions,
                            sub.traces,
                            sub.samples,
                            sub.violations,
                            sub.known,
                            sub.coverage,
                            err,
                        )
                    )
                    with os.fdopen(wr, "wb") as f:
                        f.write(data)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            os.close(wr)
            pids.append((pid, r))
        errs = []
        for pid, r in pids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if not data:
                errs.append(f"worker {pid} died with status {st}")
                continue
            s, t, tr, sm, vi, kn, cov, err = pickle.loads(data)
            self.count(s, t, tr)
            for x in sm:
                self.sample(x)
            self.violations.extend(vi)
            for k in kn:
                if k not in self.known:
                    self.known.append(k)
            for k, v in cov.items():
                if k.endswith("_max"):
                    self.coverage[k] = max(v, self.coverage.get(k, 0))
                else:
                    self.cover(k, v)
            if err:
                errs.append(err)
        if len(self.violations) >= MAX_VIOLATIONS:
            self.stop = True
        if errs and not self.violations:
            raise CheckError("\n".join(errs))

    def parallel_each(self, fn, gen, limit=None, workers=None):
        """Stripe the cases of gen() (a generator function) over the workers."""
        n = workers or ncpu()

        def job(k):
            def run(rep):
                for i, args in enumerate(gen()):
                    if i % n != k:
                        continue
                    if rep.stop or rep.out_of_time():
                        return
                    rep.call(fn, *args, limit=limit)

            return run

        self.parallel([job(k) for k in range(n)], workers=n)

    # -- end --------------------------------------------------------------------------------------
    def evidence(self):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["(no sample)"],
            "exhaustive": not self.stop and not any(k.startswith("truncated") for k in self.coverage),
        }
        cov.update({k: v for k, v in sorted(self.coverage.items())})
        return {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
        }


def ncpu():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return max(1, min(8, os.cpu_count() or 1))


# -- known findings ---------------------------------------------------------------------------------
def load_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or not line.startswith("{"):
                    continue
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    out.append(d)
    return out


def finding_key(findings, fn, args, detail):
    """A listed finding matches one call (function and leading arguments) and one observed outcome."""
    for d in findings:
        if d["fn"] == fn and list(args)[: len(d["args"])] == d["args"] and d["outcome"] in detail:
            return d["what"]
    return None


def install():
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    try:
        sys.set_int_max_str_digits(0)
    except AttributeError:
        pass
