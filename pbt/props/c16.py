"""C16 incomplete or inconsistent domain descriptions are refused; omitted options get their defaults."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure, refused

TECHNIQUE = "property-based testing (Hypothesis): decision table over generated parameter subsets"
KEYS = ["dx", "depth", "stage", "topography", "qx", "qy", "u", "v"]


@st.composite
def cases(draw):
    d = draw(gen.domains(lo=3, hi=7, models=True))
    d.pop("dress")
    full = draw(st.integers(0, 2))
    have = {}
    for k in KEYS:
        have[k] = draw(st.sampled_from(["yes", "no"] if full == 0 else ["yes", "yes", "yes", "no"]))
    if draw(st.integers(0, 4)) == 0:
        have[draw(st.sampled_from(["depth", "stage", "qx", "u"]))] = "shape"
    elif draw(st.integers(0, 6)) == 0:
        have[draw(st.sampled_from(["depth", "stage"]))] = "text"
    d["have"] = have
    d["wrong"] = draw(st.integers(0, 5))
    d["absent"] = draw(st.booleans())      # None or no such attribute
    d["rng"] = draw(gen.rng_seed)
    return d


def build(case):
    import dorado.particle_track as pt
    have = case["have"]
    d = dict(case)
    vals = dict(dx=case["dx"], depth=gen.arr(case["depth"]), stage=gen.arr(case["stage"]),
                topography=np.nan_to_num(gen.arr(case["stage"])) - np.nan_to_num(gen.arr(case["depth"])),
                qx=gen.arr(case["qx"]), qy=gen.arr(case["qy"]), u=gen.arr(case["qx"]) / 2, v=gen.arr(case["qy"]) / 4)
    p = pt.modelParams()
    for k in KEYS:
        if have[k] == "yes":
            setattr(p, k, vals[k])
        elif have[k] == "shape":
            # never broadcastable
            L, W = case["L"], case["W"]
            setattr(p, k, np.ones([(L + 1, W + 2), (W, L) if L != W else (L, W + 1), (L + 1, W), (L, W - 1), (L * W,),
                                   (L, W, 2)][case["wrong"]]))
        elif have[k] == "text":
            setattr(p, k, "deep")
        elif case["absent"] and k in ("dx", "depth", "stage", "topography"):
            if hasattr(p, k):
                delattr(p, k)
        else:
            setattr(p, k, None)
    p.model = case["model"]
    p.verbose = False
    return p


def check(case, ctx):
    import dorado.particle_track as pt
    have = case["have"]
    ok = {k: have[k] != "no" for k in KEYS}
    geometry = (ok["depth"] and (ok["stage"] or ok["topography"])) or (ok["stage"] and ok["topography"])
    q, u = ok["qx"] and ok["qy"], ok["u"] and ok["v"]
    good = ok["dx"] and geometry and (q or u)
    wrong = [k for k in KEYS if have[k] in ("shape", "text")]
    p = build(case)
    what = "parameters with %s" % ", ".join("%s%s" % (k, "" if have[k] == "yes" else " of wrong " + have[k])
                                             for k in KEYS if ok[k])
    bad = False
    for k in wrong:
        if k == "depth":
            bad = True
        elif k == "stage":
            bad = True
        elif k == "qx":
            bad = bad or q
        elif k == "u":
            bad = bad or (not q and u)
    if good and not bad:
        try:
            P = pt.Particles(p)
        except Exception as e:
            ensure(False, "%s refused: %s: %s", what, type(e).__name__, e)
        ensure(P.depth.shape == (case["L"], case["W"]) and np.shape(P.weight) == (case["L"], case["W"], 9),
               "%s: built with depth %r and weights %r", what, P.depth.shape, np.shape(P.weight))
        P.generate_particles(2, [case["L"] // 2], [case["W"] // 2])
        w = P.run_iteration()
        ref.check_walk(w, [], 2)
        ctx.label("accepted")
    elif not good:
        refused(lambda: pt.Particles(p), (ValueError,), what)
        ctx.label("incomplete")
    else:
        refused(lambda: pt.Particles(p), (ValueError,), what)
        ctx.label("inconsistent")
    ctx.nontrivial(not (good and not wrong) or not all(ok.values()))


OPTS = dict(theta=[1.0, 0.0, 2.0, 3], gamma=[0.05, 0.0, 1.0, 0.5], diff=[0.2, 0.0, 1.0, -1.0, -0.001, 1.5, 0],
            dry=[0.1, 0.01, 0.3, 0.5], sd=[True, False])


@st.composite
def options(draw):
    d = draw(gen.domains(lo=4, hi=9, nan=True, celltypes=True))
    d.pop("dress")
    for k in OPTS:
        d[k] = draw(st.sampled_from([None, None] + OPTS[k]))
    d["verbose"] = draw(st.booleans())
    d["seeds"] = gen.seeds_for(d, draw(gen.byte_pairs(2, 5)), border=False)
    d["rng"] = draw(gen.rng_seed)
    return d


def check_options(case, ctx):
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        P = gen.make_particles(case)
    sd = case["sd"] is True
    want = dict(theta=1.0 if case["theta"] is None else case["theta"],
                gamma=0.05 if case["gamma"] is None else case["gamma"],
                diff_coeff=(0.0 if sd else 0.2) if case["diff"] is None else max(case["diff"], 0.0),
                dry_depth=0.1 if case["dry"] is None else case["dry"], steepest_descent=sd)
    for k, v in want.items():
        x = getattr(P, k)
        ensure(x == v, "%s is %r with %s, expected %r", k, x,
               {q: case[q] for q in OPTS}, v)
    R = ref.RefDomain(dict(case, **{k: v for k, v in dict(
        theta=want["theta"], gamma=want["gamma"], diff=want["diff_coeff"], dry=want["dry_depth"]).items()}))
    ensure(np.array_equal(P.cell_type, R.ct), "cell types are %r, expected %r (dry depth %r, depth %r)",
           np.asarray(P.cell_type).tolist(), R.ct.tolist(), want["dry_depth"], R.depth.tolist())
    # everything spelled out behaves the same
    full = dict(case, theta=want["theta"], gamma=want["gamma"], diff=want["diff_coeff"], dry=want["dry_depth"], sd=sd,
                cell_type=R.ct.tolist())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        Q = gen.make_particles(full)
    out = []
    for X in (P, Q):
        X.generate_particles(len(case["seeds"]), [s[0] for s in case["seeds"]], [s[1] for s in case["seeds"]],
                             method="exact")
        np.random.seed(case["rng"])
        for _ in range(8):
            w = X.run_iteration()
        out.append(ref.snap(w))
    d = ref.diff_walk(*out)
    ensure(d is None, "options %s against the same spelled out: %s", {q: case[q] for q in OPTS}, d)
    for k in OPTS:
        if case[k] is None:
            ctx.label(k + " omitted")
    if case["diff"] is not None and case["diff"] < 0:
        ctx.label("negative diffusion")
    ctx.nontrivial(any(case[k] is None for k in OPTS))


SUBS = [
    Sub("required", cases, check, 3000, 40000, "any subset of dx, depth, stage, bed, qx, qy, u, v (None or no such "
        "attribute), some of the wrong shape or type, against the decision table; non-trivial unless all are given"),
    Sub("options", options, check_options, 2000, 30000, "any subset of theta, gamma, diffusion, dry depth, steepest "
        "descent and cell types omitted: values, cell types and walk against the same spelled out; non-trivial if one "
        "is omitted"),
]
