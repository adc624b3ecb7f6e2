"""Author and try planted bugs.

  plant.py make SPEC.py      write seeded/<id>/ for every entry of BUGS in SPEC.py
  plant.py try [ID ...]      confirm each (tests pass, demo 0/nonzero) and run the property's check against it
  plant.py all [ID ...]      like try, but run every check and list those that report it

Works on scratch copies of /repo under /tmp, which are removed again.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"
SH = '''#!/bin/bash
export PYTHONPATH="$PWD" MPLBACKEND=Agg TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(d, "repo")
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", r])
    return d, r


def make(spec):
    for b in runpy.run_path(spec)["BUGS"]:
        d, r = copy()
        try:
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(r, "dorado", f)
                s = open(p).read()
                if s.count(old) != b.get("count", 1):
                    print(b["id"], "edit matches", s.count(old), "times:", old[:60])
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            o = os.path.join(S, b["id"])
            os.makedirs(o, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
            open(os.path.join(o, "patch.diff"), "w").write(diff)
            open(os.path.join(o, "demo.sh"), "w").write(SH)
            os.chmod(os.path.join(o, "demo.sh"), 0o755)
            open(os.path.join(o, "demo.py"), "w").write(b["demo"].strip() + "\n")
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]),
                      open(os.path.join(o, "meta.json"), "w"), indent=1)
            print("made", b["id"])
        finally:
            shutil.rmtree(d)


def prepare(i):
    """(dir, repo, problem)"""
    o = os.path.join(S, i)
    d, r = copy()
    demo = lambda: subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
    a = demo()
    if a.returncode != 0:
        return d, r, "demo fails on the unchanged tree: " + a.stderr[-300:]
    subprocess.check_call(["git", "-C", r, "apply", os.path.join(o, "patch.diff")])
    b = demo()
    if b.returncode == 0:
        return d, r, "demo passes with the patch"
    env = dict(os.environ, PYTHONPATH=r, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=r, env=env,
                       capture_output=True, text=True)
    if t.returncode != 0:
        return d, r, "tests fail: " + " ".join(re.findall(r"FAILED \S+", t.stdout)[:3]) + t.stdout[-200:]
    return d, r, None


def check(pid, r):
    c = subprocess.run(["python3", os.path.join(V, "run_check.py"), pid], cwd=V,
                       env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
    return c.returncode, c.stdout


def main(cmd, ids):
    if cmd == "make":
        for s in ids:
            make(s)
        return
    ids = ids or sorted(os.listdir(S))
    missed = []
    with ThreadPoolExecutor(4) as ex:
        prep = list(ex.map(prepare, ids))
    for i, (d, r, bad) in zip(ids, prep):
        try:
            pid = json.load(open(os.path.join(S, i, "meta.json")))["property"]
            if bad:
                print("INVALID", i, bad, flush=True)
                continue
            rc, out = check(pid, r)
            line = next((l for l in out.splitlines() if l.startswith("  sub-check")), out[-200:])
            print("caught" if rc == 1 else "MISSED(%d)" % rc, i, pid, line.strip()[:230], flush=True)
            if rc != 1:
                missed.append(i)
            if cmd == "all":
                by = [p for p in ["C%02d" % k for k in range(1, 34)] if p != pid and check(p, r)[0] == 1]
                print("   also by", by, flush=True)
        finally:
            shutil.rmtree(d)
    print("missed:", missed)


main(sys.argv[1], sys.argv[2:])
