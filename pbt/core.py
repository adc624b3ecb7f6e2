"""Shared vocabulary of the checks: Violation, Ctx, Sub, guarded calls, scratch folders."""
import contextlib
import hashlib
import json
import os
import shutil
import signal
import tempfile
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


REPO_REAL = os.path.realpath(REPO) + os.sep


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The check itself is at fault."""


class CaseTimeout(BaseException):
    """One case used far more CPU time than any case does on working code."""


class Ctx:
    """Collects what one run covered."""

    def __init__(self):
        self.labels = {}
        self.is_nt = False
        self.why = None

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self.is_nt = True


class Sub:
    """One sub-check of a property.

    name      identifies it in replay files
    strategy  zero-argument callable giving a Hypothesis strategy of JSON cases
    check     check(case, ctx): raises Violation
    quick / thorough  total number of cases per tier
    rule      what makes a case non-trivial
    """

    def __init__(self, name, strategy, check, quick, thorough, rule,
                 case_cpu=100):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.case_cpu = case_cpu


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def listed(pid):
    """Keys of the known findings of a property: {key: line}."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    start = "KNOWN-FINDING: property=%s " % pid
    out = {}
    with open(os.path.join(here, "known_findings.txt")) as f:
        for line in f:
            if line.startswith(start):
                out[line[len(start):].split()[0]] = line.strip()
    return out


def known(ctx, pid, key, msg, *args):
    """The known finding `key` was observed: not a violation if it is listed."""
    ensure(key in listed(pid), msg, *args)
    ctx.label("known " + key)


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _in_repo(tb):
    """True if the exception was raised inside the code under test (or in a library it called)."""
    frames = traceback.extract_tb(tb)
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
               for f in frames)


def refused(fn, excs, what):
    """fn must raise one of excs; returns the exception."""
    try:
        fn()
    except excs as e:
        return e
    except (Violation, HarnessError):
        raise
    except Exception as e:  # noqa
        raise Violation("%s: expected %s, got %s: %s" % (
            what, "/".join(x.__name__ for x in excs), type(e).__name__, e)) from e
    raise Violation("%s: accepted, expected %s" % (
        what, "/".join(x.__name__ for x in excs)))


@contextlib.contextmanager
def scratch():
    """A scratch directory, made and removed; the working directory is inside it meanwhile."""
    d = tempfile.mkdtemp(prefix="pbt-")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def cpu_limit(seconds):
    def handler(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def case_hash(sub, case):
    return hashlib.sha1((sub + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:12]


def clean(obj, depth=0, limit=24):
    """Shorten a case for the evidence file and make it strict JSON."""
    if isinstance(obj, float):
        return obj if obj == obj and abs(obj) != float("inf") else str(obj)
    if isinstance(obj, dict):
        return {str(k): clean(v, depth + 1, limit) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        out = [clean(v, depth + 1, limit) for v in obj[:limit]]
        if len(obj) > limit:
            out.append("... %d in all" % len(obj))
        return out
    return obj


def quiet():
    warnings.simplefilter("ignore")
