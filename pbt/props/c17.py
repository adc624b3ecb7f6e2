"""C17 parameter objects can be reused without changing the outcome."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure

TECHNIQUE = "property-based testing (Hypothesis): stateful build/edit sequences, differential against a fresh copy of the settings"
NAN = float("nan")
VARS = ["depth", "stage", "qx", "qy", "u", "v"]
FIELDS = ["depth", "stage", "topography", "qx", "qy", "u", "v"]


@st.composite
def cases(draw):
    d = draw(gen.domains(lo=4, hi=8, roi=True, tracked=True))
    d.pop("dress")
    L, W = d["L"], d["W"]
    n = L * W
    if draw(st.integers(0, 2)) == 0:
        d["vars"] = None
    d["topography"] = None
    how = draw(st.sampled_from(["DS", "SZ", "DZ", "DS", "all"]))
    bed = [[0.0 if s != s else s - (0 if q != q else q) + (x % 3) * 0.5 - 0.5 for s, q, x in zip(a, b, c)]
           for a, b, c in zip(d["stage"], d["depth"], gen.grid(draw(gen.blob(n)), list(range(256)), L, W))]
    if how != "DS":
        d["topography"] = bed
    if how == "SZ":
        d["depth"] = None
    if how == "DZ":
        d["stage"] = None
    if draw(st.booleans()):
        d["u"], d["v"] = d["qx"], d["qy"]
        if draw(st.booleans()):
            d["qx"] = d["qy"] = None
    d["theta"] = draw(st.sampled_from([None, 1.0, 2.0]))
    d["diff"] = draw(st.sampled_from([None, 0.0, 0.2, -1.0]))
    d["dry"] = draw(st.sampled_from([None, 0.1, 0.3]))
    ops = [["build"]]
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["build", "route", "set", "set", "drop", "grid", "grid", "build"]))
        if k == "set":
            name = draw(st.sampled_from(["theta", "gamma", "diff", "dry", "sd", "model", "vars", "dx"]))
            val = draw(st.sampled_from(dict(
                theta=[0.0, 1.0, 3.0], gamma=[0.0, 1.0, 0.5], diff=[-0.5, 0.0, 1.0], dry=[0.0, 0.5, 0.1],
                sd=[True, False], model=["DeltaRCM", "anuga"], dx=[1.0, 20.0],
                vars=[["depth"], ["v", "stage"], [], ["roi_flag"]])[name]))
            ops.append(["set", name, val])
        elif k == "drop":
            ops.append(["drop", draw(st.sampled_from(["theta", "gamma", "diff", "dry", "sd", "model", "cell_type", "roi",
                                                      "vars", "q", "depth"]))])
        elif k == "grid":
            name = draw(st.sampled_from(["depth", "stage", "topography", "qx", "u", "v", "roi", "celltype"]))
            b = draw(gen.blob(n))
            if name in ("roi", "celltype"):
                v = [[int(b[i * W + j] % 3 if name == "celltype" else b[i * W + j] % 2) for j in range(W)]
                     for i in range(L)]
            else:
                v = gen.grid(b, dict(depth=gen.DEPTH_MIX, stage=gen.LEVEL, topography=gen.LEVEL).get(name, gen.FLUX),
                             L, W)
            ops.append(["grid", name, v])
        else:
            ops.append([k])
    ops.append(["build"])
    d["ops"] = ops
    d["seeds"] = gen.seeds_for(d, draw(gen.byte_pairs(1, 3)), border=False)
    d["rng"] = draw(gen.rng_seed)
    return d


ATTR = dict(diff="diff_coeff", dry="dry_depth", sd="steepest_descent", vars="particle_variables", roi="roi_grid",
            celltype="cell_type")


def sufficient(m):
    g = [m.get(k) is not None for k in ("depth", "stage", "topography")]
    f = all(m.get(k) is not None for k in ("qx", "qy")) or all(m.get(k) is not None for k in ("u", "v"))
    return sum(g) >= 2 and f and not ("roi_flag" in (m.get("vars") or []) and m.get("roi") is None)


def attrs(P):
    out = {}
    for k in ("depth", "stage", "qx", "qy", "u", "v", "velocity", "velocity_angle", "weight", "cell_type", "theta",
              "gamma", "diff_coeff", "dry_depth", "steepest_descent", "dx"):
        out[k] = np.array(getattr(P, k))
    out["weight"] = np.nan_to_num(out["weight"])      # no weight and a missing one are the same
    return out


def walk(P, case, n=6):
    s = case["seeds"]
    P.clear_walk_data()
    P.generate_particles(len(s), [c[0] for c in s], [c[1] for c in s], method="exact")
    np.random.seed(case["rng"])
    for _ in range(n):
        P.run_iteration()
    return ref.snap(P.run_iteration(target_time=40.0 * case["dx"], max_iter=8))


def check(case, ctx):
    import dorado.particle_track as pt
    m = {k: copy.deepcopy(case.get(k)) for k in FIELDS + ["theta", "gamma", "diff", "dry", "sd", "model", "cell_type",
                                                          "roi", "vars", "dx"]}
    m["roi_dtype"] = "int64"
    p = gen.make_params(m)
    user = {}

    def fresh():
        return gen.make_params(m)

    def builds():
        if not sufficient(m):
            return 0
        P = pt.Particles(p)
        Q = pt.Particles(fresh())
        a, b = attrs(P), attrs(Q)
        for k in a:
            ensure(np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == "f"),
                   "build %d of the same parameter object, after %r: %s is %r, from a fresh copy %r", nb + 1, done, k,
                   a[k].tolist(), b[k].tolist())
        w = walk(P, case)
        d = ref.diff_walk(walk(Q, case), w)
        ensure(d is None, "build %d after %r: walk of a fresh copy against the reused object: %s", nb + 1, done, d)
        for k in ("u", "v"):
            if m.get(k) is not None:
                ensure(np.array_equal(np.array(m[k], float), getattr(p, k), equal_nan=True),
                       "after a build the user's %s is %r, was %r", k, getattr(p, k).tolist(), m[k])
        if m.get("vars") is not None:
            ensure(p.particle_variables == m["vars"], "after a build the user's list of variables is %r, was %r",
                   p.particle_variables, m["vars"])
        made.append((P, a, w))
        return 1

    nb, done, made = 0, [], []
    edits = 0
    for op in case["ops"]:
        done.append(op[:2])
        if op[0] == "build":
            nb += builds()
        elif op[0] == "route":
            if made:
                walk(made[-1][0], case, 3)
        elif op[0] == "set":
            m[op[1]] = copy.deepcopy(op[2])
            setattr(p, ATTR.get(op[1], op[1]), copy.deepcopy(op[2]))
            edits += 1
        elif op[0] == "grid":
            key = {"celltype": "cell_type"}.get(op[1], op[1])
            m[key] = copy.deepcopy(op[2])
            setattr(p, ATTR.get(op[1], op[1]), np.array(op[2], dtype=int if key in ("roi", "cell_type") else float))
            edits += 1
        else:
            k = op[1]
            if k == "q":
                m["qx"] = m["qy"] = None
                p.qx = p.qy = None
            elif k == "depth":
                m["depth"] = None
                p.depth = None
            else:
                m[k] = None
                a = ATTR.get(k, k)
                if hasattr(p, a):
                    delattr(p, a)
            edits += 1
    # objects built earlier have not changed either
    for P, a, w in made[:-1]:
        b = attrs(P)
        d = ref.diff_walk(w, walk(P, case))
        ensure(d is None, "an object built earlier walks differently after %r: %s", done, d)
        for k in a:
            if k == "weight":      # steepest descent clears the weights it does not use
                continue
            ensure(np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == "f"),
                   "%s of an object built earlier changed after %r", k, done)
    ctx.label("builds=%d" % min(nb, 4))
    if edits:
        ctx.label("edited")
    ctx.nontrivial(nb >= 2)


SUBS = [Sub("reuse", cases, check, 2500, 40000,
            "3-10 operations on one parameter object: build, route, set or drop single settings, replace single grids "
            "(any description: discharge, velocity, stage, bed); every build compared (fields, weights, walk) with a "
            "build from a fresh copy of the settings; non-trivial with two builds")]
