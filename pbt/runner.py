"""Runs the sub-checks of one property: replay tier, sharded generated search, evidence, replay files."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("PBT_WORKERS", "8"))
HARD_LIMIT = int(os.environ.get("PBT_HARD_LIMIT", "840"))
SCALE = float(os.environ.get("PBT_SCALE", "1"))     # fewer cases, for tools/mutate.py


def load(pid):
    return importlib.import_module("pbt.props." + pid.lower())


def import_sut():
    """Import dorado from the working tree and from nowhere else."""
    # libraries first, with their usual byte-code caches ...
    import numpy, scipy.stats, scipy.interpolate, scipy.ndimage, scipy.spatial  # noqa
    import matplotlib.pyplot, mpl_toolkits.axes_grid1, tqdm, json, multiprocessing  # noqa
    import hypothesis, hypothesis.strategies  # noqa
    # ... then the code under test from source, never from a cached .pyc
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "pyc-%d" % os.getpid())
    sys.path.insert(0, core.REPO)
    import dorado
    root = os.path.realpath(core.REPO) + os.sep
    if not os.path.realpath(dorado.__file__).startswith(root):
        raise core.HarnessError("dorado imported from " + dorado.__file__)


def seed_for(seed, pid, sub, worker):
    import hashlib
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, pid, sub, worker)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_case(sub, case, ctx):
    """Run one case; returns None or the text of the violation."""
    import numpy as np
    import warnings
    import random as _random
    core.quiet()
    np.random.seed(0)
    _random.seed(0)
    # the case must reach the check as it would from a replay file
    case = json.loads(json.dumps(case))
    try:
        with core.cpu_limit(sub.case_cpu):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    sub.check(case, ctx)
    except core.Violation as e:
        return str(e) or "violation"
    except core.HarnessError:
        raise
    except Exception as e:  # noqa
        # an exception out of the code under test on input the check holds to be valid
        if core._in_repo(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__)
                    if os.path.realpath(f.filename).startswith(core.REPO_REAL)][-1]
            return "%s: %s (raised in %s, %s)" % (
                type(e).__name__, e, os.path.basename(last.filename), last.name)
        # what the code under test returned or wrote has not the form the check relies on; failures of the machine
        # (memory, disk) and of the search itself are not a verdict
        if (type(e).__module__.split(".")[0] == "hypothesis" or isinstance(e, (MemoryError, ImportError)) or
                isinstance(e, OSError) and not isinstance(e, (FileNotFoundError, NotADirectoryError, IsADirectoryError))):
            raise
        last = traceback.extract_tb(e.__traceback__)
        mine = [f for f in last if os.path.realpath(f.filename).startswith(HERE)] or last
        return "the result does not have the expected form: %s: %s (in %s, %s: %s)" % (
            type(e).__name__, e, os.path.basename(mine[-1].filename), mine[-1].name, mine[-1].line)
    except core.CaseTimeout:
        return "TIMEOUT: the case did not finish within %d s of CPU time" % sub.case_cpu
    return None


class _Found(Exception):
    pass


class _Stop(BaseException):
    pass


def search(sub, pid, seed, worker, n, res):
    """Generated search for one sub-check; fills res (labels, counts, violation)."""
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    from hypothesis import seed as hseed
    last = {}
    t0 = time.time()

    def body(case):
        ctx = core.Ctx()
        msg = run_case(sub, case, ctx)
        if not last:
            res["evaluations"] += 1
            if ctx.is_nt:
                h = core.case_hash(sub.name, case)
                if h not in res["nt"]:
                    res["nt"].add(h)
                    if len(res["samples"].setdefault(sub.name, [])) < 2:
                        res["samples"][sub.name].append(core.clean(case))
            for k, v in ctx.labels.items():
                key = sub.name + ":" + k
                res["labels"][key] = res["labels"].get(key, 0) + v
            res["per_sub"][sub.name] = res["per_sub"].get(sub.name, 0) + 1
        if msg is not None:
            last["case"] = json.loads(json.dumps(case))
            last["msg"] = msg
            if msg.startswith("TIMEOUT"):
                raise _Stop()
            raise _Found(msg)

    test = given(sub.strategy())(body)
    test = hseed(seed_for(seed, pid, sub.name, worker))(test)
    test = settings(max_examples=n, database=None, deadline=None,
                    derandomize=False, report_multiple_bugs=False,
                    verbosity=Verbosity.quiet, print_blob=False,
                    phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(test)
    try:
        test()
    except _Stop:
        pass
    except BaseException as e:
        if not last:
            raise
        if isinstance(e, KeyboardInterrupt):
            raise
    res["time"][sub.name] = round(time.time() - t0, 2)
    if last:
        return dict(sub=sub.name, case=last["case"], msg=last["msg"])
    return None


def worker_main(pid, worker, tier, seed, out):
    res = dict(evaluations=0, nt=set(), labels={}, samples={}, per_sub={}, time={},
               violation=None, error=None, replayed=0)
    try:
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 60
    except Exception:
        pass
    try:
        import_sut()
        mod = load(pid)
        if worker == 0:
            cdir = os.path.join(HERE, "corpus", pid)
            subs = {s.name: s for s in mod.SUBS}
            for fn in sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []:
                rec = json.load(open(os.path.join(cdir, fn)))
                ctx = core.Ctx()
                msg = run_case(subs[rec["sub"]], rec["case"], ctx)
                res["evaluations"] += 1
                res["replayed"] += 1
                if ctx.is_nt:
                    res["nt"].add(core.case_hash(rec["sub"], rec["case"]))
                if msg is not None:
                    res["violation"] = dict(sub=rec["sub"], case=rec["case"],
                                            msg="corpus/%s/%s: %s" % (pid, fn, msg))
                    break
        if res["violation"] is None:
            for sub in mod.SUBS:
                total = sub.thorough if tier == "thorough" else sub.quick
                total = -int(-total * SCALE // 1)
                n = total // WORKERS + (1 if worker < total % WORKERS else 0)
                if n <= 0:
                    continue
                v = search(sub, pid, seed, worker, n, res)
                if v:
                    res["violation"] = v
                    break
    except BaseException:
        res["error"] = traceback.format_exc()
    res["nt"] = sorted(res["nt"])
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out)
    return 0


def main(argv):
    if argv and argv[0] == "--worker":
        return worker_main(argv[1], int(argv[2]), argv[3], int(argv[4]), argv[5])
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pbtrun-")
    try:
        return drive(pid, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(pid, tier, seed, t0, tmp):
    env = dict(os.environ)
    env.update(TMPDIR=tmp, MPLCONFIGDIR=os.path.join(tmp, "mpl"),
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, "hyp"))
    os.makedirs(os.path.join(tmp, "mpl"))
    cmd = [sys.executable, "-s", os.path.join(HERE, "run_check.py"), "--worker", pid]
    procs = []
    limit = HARD_LIMIT if tier == "quick" else HARD_LIMIT * 20
    for w in range(WORKERS):
        out = os.path.join(tmp, "w%d.json" % w)
        log = open(os.path.join(tmp, "w%d.log" % w), "w")
        p = subprocess.Popen(cmd + [str(w), tier, str(seed), out], env=env, cwd=tmp,
                             stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        procs.append((p, out, log))
    results = {}
    stop = False
    while len(results) < WORKERS and not stop:
        time.sleep(0.05)
        for w, (p, out, log) in enumerate(procs):
            if w in results or p.poll() is None:
                continue
            log.close()
            if os.path.exists(out):
                results[w] = json.load(open(out))
            else:
                results[w] = dict(evaluations=0, nt=[], labels={}, samples={}, per_sub={},
                                  time={}, violation=None, replayed=0,
                                  error="worker %d died (%s):\n%s" % (
                                      w, p.returncode,
                                      open(os.path.join(tmp, "w%d.log" % w)).read()[-3000:]))
            if results[w]["violation"]:
                stop = True
        if time.time() - t0 > limit:
            break
    killed = 0
    for w, (p, out, log) in enumerate(procs):
        if p.poll() is None:
            killed += 1
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
    mod = load(pid)
    nt = set()
    ev = 0
    labels, per_sub, samples, times = {}, {}, {}, {}
    replayed = 0
    for r in results.values():
        nt.update(r["nt"])
        ev += r["evaluations"]
        replayed += r["replayed"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["per_sub"].items():
            per_sub[k] = per_sub.get(k, 0) + v
        for k, v in r["time"].items():
            times[k] = max(times.get(k, 0), v)
        for k, v in r["samples"].items():
            samples.setdefault(k, [])
            samples[k] = (samples[k] + v)[:2]
    viols = [r["violation"] for r in results.values() if r["violation"]]
    errors = [r["error"] for r in results.values() if r["error"]]
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=ev, distinct_nontrivial=len(nt),
            rule="; ".join("%s: %s" % (s.name, s.rule) for s in mod.SUBS),
            samples=[dict(sub=k, case=c) for k, v in sorted(samples.items()) for c in v],
            per_sub_check=per_sub, labels=dict(sorted(labels.items())),
            corpus_replayed=replayed, workers=WORKERS,
            slowest_worker_seconds=times),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, allow_nan=False)
    if viols:
        v = min(viols, key=lambda x: len(json.dumps(x["case"])))
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (
            pid, v["sub"], core.case_hash(v["sub"], v["case"])))
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub=v["sub"], msg=v["msg"], case=v["case"]), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  sub-check %s: %s" % (v["sub"], v["msg"][:1500]))
        return 1
    if errors or killed:
        print("ERROR in the check of %s (no verdict)" % pid)
        for e in errors[:2]:
            print(e)
        if killed:
            print("%d workers were still running after %d s" % (killed, limit))
        return 2
    for key, line in sorted(core.listed(pid).items()):
        if any(k.endswith(":known " + key) for k in labels):
            print(line)
    print("OK property=%s tier=%s seed=%s cases=%d nontrivial=%d wall=%.1fs" % (
        pid, tier, seed, ev, len(nt), time.time() - t0))
    return 0


def replay(path):
    rec = json.load(open(path))
    import_sut()
    mod = load(rec["property"])
    sub = {s.name: s for s in mod.SUBS}[rec["sub"]]
    msg = run_case(sub, rec["case"], core.Ctx())
    if msg is None:
        print("REPLAY OK property=%s (the case passes)" % rec["property"])
        return 0
    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    print("  " + msg[:3000])
    return 1
