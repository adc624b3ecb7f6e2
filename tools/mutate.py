"""Automatic mutants of dorado: which of those that the existing tests accept do the checks report?

  mutate.py list                       number of mutants per function
  mutate.py run OUT.jsonl [FUNC ...]   try them (8 in parallel), appending one line per mutant

A development tool; nothing registered in MANIFEST.json uses it.  Works in copies under /tmp/mut.
"""
import ast, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")
ROUTE = ["C04", "C05", "C07", "C02", "C03", "C01", "C06", "C10", "C08"]
MAP = {
    "random_pick_seed": ["C11"], "big_sliding_window": ROUTE, "tile_local_array": ROUTE, "tile_domain_array": ROUTE,
    "clear_borders": ROUTE, "make_weight": ROUTE, "get_weight": ROUTE, "calculate_new_ind": ROUTE, "step_update": ROUTE,
    "calc_travel_times": ["C07", "C01", "C08"], "check_for_boundary": ROUTE, "random_pick": ROUTE, "steep_descent": ROUTE,
    "particle_stepper": ROUTE + ["C09", "C13"], "setup_logging": ["C33"], "handle_verbose_deprecation": ["C33"],
    "run_iter": ["C14", "C18"], "combine_result": ["C14"], "parallel_obj": ["C14"], "parallel_routing": ["C14", "C18"],
    "modelParams": ["C16", "C17"],
    "Particles.__init__": ["C04", "C15", "C16", "C17", "C07", "C10", "C02", "C05", "C32", "C09", "C11", "C33"],
    "Particles.clear_walk_data": ["C09", "C11"], "Particles.generate_particles": ["C11", "C09", "C12", "C10", "C33", "C13", "C18"],
    "Particles.run_iteration": ["C09", "C08", "C10", "C07", "C01", "C02", "C13", "C12", "C18", "C33"],
    "gen_input_check": ["C11", "C16", "C09"], "coord2ind": ["C22"], "ind2coord": ["C22", "C33"],
    "exposure_time": ["C19", "C32", "C26"], "nourishment_area": ["C20"], "nourishment_time": ["C21"],
    "unstruct2grid": ["C23"], "flux_proportional_seeding": ["C24"],
    "get_state": ["C25", "C28", "C31", "C32"], "get_time_state": ["C25", "C32", "C31"],
    "systemwide": ["C26"], "localized": ["C26"], "_find_common_indices_info": ["C26"],
    "percentile_from_cdf": ["C27"], "compute_thresholds": ["C27"], "median_absolute_deviation_filter": ["C27"],
}
MAP.update({k: ["C28", "C33"] for k in ("steady_plots", "time_plots")})
MAP.update({"unsteady_plots": ["C29", "C33"], "animate_plots": ["C34"], "init": ["C34"], "animate": ["C34"]})
MAP.update({k: ["C30", "C33", "C32"] for k in ("plot_exposure_time", "plot_exposure_time_thresholds")})
MAP.update({k: ["C35", "C31", "C33", "C32"] for k in ("draw_travel_path", "plot_state", "snake_plots",
            "show_nourishment_area", "show_nourishment_time", "plot_spatial")})
PLOT = ["C28", "C29", "C30", "C31", "C12", "C32", "C33"]
NAMES = {"xinds": "yinds", "yinds": "xinds", "travel_times": "xinds", "qx": "qy", "qy": "qx", "u": "v", "v": "u",
         "depth": "stage", "stage": "depth", "iwalk": "jwalk", "jwalk": "iwalk", "ivec": "jvec", "jvec": "ivec",
         "floor": "ceil", "ceil": "floor", "nanmax": "nanmin", "nanmin": "nanmax", "max": "min", "min": "max",
         "nansum": "nanmax", "argmin": "argmax", "x": "y", "y": "x", "xi": "yi", "yi": "xi", "x0": "y0", "y0": "x0",
         "median": "mean", "mean": "median", "rows": "cols", "cols": "rows", "L": "W", "W": "L", "theta": "gamma",
         "gamma": "theta", "r0": "c0", "c0": "r0", "r1": "c1", "c1": "r1", "ii": "jj", "new_vel": "old_vel",
         "old_vel": "new_vel", "sin": "cos", "cos": "sin", "logical_or": "logical_and", "any": "all", "all": "any",
         "cumsum": "sort", "nanpercentile": "nanquantile", "round": "int", "makedirs": "path.exists",
         "seed_xloc": "seed_yloc", "seed_yloc": "seed_xloc", "x_orig": "y_orig", "y_orig": "x_orig",
         "P50": "P75", "P75": "P90", "P90": "P75", "E50": "E75", "E75": "E90", "E90": "E75"}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div],
       ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr]}


def variants(node):
    """Replacement nodes for one node: (what, function mutating a copy in place)."""
    out = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for c in CMP.get(type(node.ops[0]), []):
            out.append(("cmp->%s" % c.__name__, lambda n, c=c: n.ops.__setitem__(0, c())))
    if isinstance(node, (ast.BinOp, ast.AugAssign)):
        for c in BIN.get(type(node.op), []):
            if isinstance(node, ast.BinOp) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                continue
            out.append(("op->%s" % c.__name__, lambda n, c=c: setattr(n, "op", c())))
    if isinstance(node, ast.BoolOp):
        out.append(("boolop", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not, ast.Invert)):
        out.append(("drop unary", lambda n: setattr(n, "op", ast.UAdd()) if isinstance(n.op, ast.USub) else
                    setattr(n, "operand", ast.UnaryOp(op=n.op, operand=n.operand))))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(("bool", lambda n: setattr(n, "value", not n.value)))
        elif isinstance(v, int):
            out.append(("int+1", lambda n: setattr(n, "value", n.value + 1)))
            if v:
                out.append(("int-1", lambda n: setattr(n, "value", n.value - 1)))
        elif isinstance(v, float):
            out.append(("float*1.2", lambda n: setattr(n, "value", n.value * 1.2 + (0.01 if n.value == 0 else 0))))
            out.append(("float*0.5", lambda n: setattr(n, "value", n.value * 0.5 - (0.01 if n.value == 0 else 0))))
        elif isinstance(v, str) and v in NAMES:
            out.append(("str->%s" % NAMES[v], lambda n: setattr(n, "value", NAMES[n.value])))
    if isinstance(node, ast.Attribute) and node.attr in NAMES and "." not in NAMES[node.attr]:
        out.append(("attr->%s" % NAMES[node.attr], lambda n: setattr(n, "attr", NAMES[n.attr])))
    if isinstance(node, ast.Attribute) and node.attr == "copy":
        out.append(("nocopy", lambda n: setattr(n, "attr", "view")))
    if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in NAMES:
        out.append(("name->%s" % NAMES[node.id], lambda n: setattr(n, "id", NAMES[n.id])))
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        if not isinstance(node, ast.While):
            out.append(("cond True", lambda n: setattr(n, "test", ast.Constant(True))))
        out.append(("cond False", lambda n: setattr(n, "test", ast.Constant(False))))
    if isinstance(node, ast.Slice):
        if node.lower is not None:
            out.append(("no lower", lambda n: setattr(n, "lower", None)))
        if node.upper is not None:
            out.append(("no upper", lambda n: setattr(n, "upper", None)))
    if isinstance(node, ast.Call) and len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args):
        out.append(("swap args", lambda n: n.args.reverse()))
    if isinstance(node, ast.Call) and node.keywords:
        out.append(("drop kw", lambda n: n.keywords.pop()))
    return out


def body_variants(node):
    out = []
    for f in ("body", "orelse"):
        b = getattr(node, f, None)
        if not isinstance(b, list):
            continue
        for k, s in enumerate(b):
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.For)) and not (
                    isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.append((s.lineno, "delete stmt", lambda n, f=f, k=k: getattr(n, f).__setitem__(k, ast.Pass())))
            if isinstance(s, ast.Break):
                out.append((s.lineno, "break->pass", lambda n, f=f, k=k: getattr(n, f).__setitem__(k, ast.Pass())))
            if isinstance(s, ast.Continue):
                out.append((s.lineno, "continue->break", lambda n, f=f, k=k: getattr(n, f).__setitem__(k, ast.Break())))
    return out


def mutants(path):
    """Yield (function, line, what, new source)."""
    src = open(path).read()
    tree = ast.parse(src)
    seen = {ast.unparse(tree)}

    def scopes(body, prefix=""):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                yield prefix + s.name, s
            elif isinstance(s, ast.ClassDef):
                yield from scopes(s.body, "" if s.name != "Particles" else "Particles.")
    for name, fn in scopes(tree.body):
        doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
        nodes = [n for n in ast.walk(fn) if n is not doc and not (doc and n is doc.value)]
        for n in nodes:
            todo = [(getattr(n, "lineno", 0), w, f) for w, f in variants(n)] + body_variants(n)
            for line, what, f in todo:
                saved = copy.deepcopy(n.__dict__) if not isinstance(n, ast.FunctionDef) else {"body": list(n.body)}
                old = dict(n.__dict__)
                n.__dict__.update(copy.deepcopy({k: v for k, v in old.items()}))
                try:
                    f(n)
                    new = ast.unparse(ast.fix_missing_locations(tree))
                finally:
                    n.__dict__.clear()
                    n.__dict__.update(old)
                del saved
                if new in seen:
                    continue
                seen.add(new)
                yield name, line, what, new


def setup(k):
    d = os.path.join(ROOT, "w%d" % k)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
    shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))


def init(q, done):
    global ME, DONE
    DONE = done
    ME = q.get()
    setup(ME)


def one(job):
    f, name, line, what, src = job
    d = os.path.join(ROOT, "w%d" % ME)
    p = os.path.join(d, "repo", f)
    orig = open(p).read()
    res = dict(file=f, func=name, line=line, what=what)
    a, b = ast.unparse(ast.parse(orig)).splitlines(), src.splitlines()
    import difflib
    res["diff"] = [x for x in difflib.unified_diff(a, b, lineterm="", n=0) if x[:1] in "+-" and x[:3] not in ("+++", "---")]
    if (f, name, what, "\n".join(res["diff"])) in DONE:
        return None
    try:
        open(p, "w").write(src)
        env = dict(os.environ, PYTHONPATH=d + "/repo", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TQDM_DISABLE="1")
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d + "/repo",
                               env=env, capture_output=True, text=True, timeout=120)
            if t.returncode:
                res["by"] = "tests"
                return res
        except subprocess.TimeoutExpired:
            res["by"] = "tests (timeout)"
            return res
        env = dict(os.environ, VERIF_REPO=d + "/repo", PBT_WORKERS="1", PBT_SCALE=os.environ.get("PBT_SCALE", "0.25"),
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        res["by"] = None
        for c in MAP.get(name, PLOT):
            r = subprocess.run(["python3", d + "/verif/run_check.py", c], env=env, capture_output=True, text=True)
            if r.returncode:
                res["by"] = c + ("" if r.returncode == 1 else "(%d)" % r.returncode)
                res["msg"] = r.stdout[-300:] if r.returncode != 1 else ""
                break
    finally:
        open(p, "w").write(orig)
    return res


def main(argv):
    jobs = []
    for f in ["lagrangian_walker", "particle_track", "parallel_routing", "spatial", "routines", "logging_config"]:
        f = "dorado/%s.py" % f
        for name, line, what, src in mutants("/repo/" + f):
            jobs.append((f, name, line, what, src))
    if argv[0] == "list":
        c = {}
        for j in jobs:
            c[j[1]] = c.get(j[1], 0) + 1
        print(len(jobs), c)
        return
    want = set(argv[2:])
    done = set()
    if os.path.exists(argv[1]):
        for l in open(argv[1]):
            r = json.loads(l)
            done.add((r["file"], r["func"], r["what"], "\n".join(r["diff"])))
    jobs = [j for j in jobs if not want or j[1] in want]
    n = int(os.environ.get("MUT_SAMPLE", "0"))
    if n:
        random.Random(5).shuffle(jobs)
        jobs = jobs[:n]
    q = multiprocessing.Queue()
    nw = int(os.environ.get("MUT_WORKERS", "8"))
    for k in range(nw):
        q.put(k)
    with ProcessPoolExecutor(nw, initializer=init, initargs=(q, done)) as ex, open(argv[1], "a") as out:
        for r in ex.map(one, jobs, chunksize=1):
            if r:
                out.write(json.dumps(r) + "\n")
                out.flush()
    shutil.rmtree(ROOT)


if __name__ == "__main__":
    main(sys.argv[1:])
