"""C10 tracked variables report the grid value at every recorded position."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure, refused

KINDS = ["depth", "stage", "qx", "qy", "u", "v"]


@st.composite
def cases(draw):
    d = draw(gen.domains(hi=10, roi=True))
    pairs = draw(gen.byte_pairs(1, 5))
    d["seeds"] = gen.seeds_for(d, pairs)
    d["vars"] = draw(st.lists(st.sampled_from(KINDS), unique=True, max_size=6))
    if d.get("roi") is not None:
        m = draw(st.integers(0, 3))
        if m == 0:
            d["vars"] = d["vars"] + ["roi_flag"]
        if m == 1:
            d["vars"] = ["roi_flag"] + d["vars"]
        if m == 2:
            d["vars"] = None
        if draw(st.integers(0, 2)) == 0 and d["roi_dtype"] != "bool":
            d["roi"] = [[2 * v if (i + j) % 5 == 0 else v for j, v in enumerate(r)] for i, r in enumerate(d["roi"])]
    if draw(st.integers(0, 3)) == 3:
        d["u"], d["v"] = d.pop("qx"), d.pop("qy")
    d["ops"] = draw(sim.op_lists(1, 4, 12, 20))
    if draw(st.booleans()):
        k = draw(st.integers(0, len(d["ops"])))
        d["ops"].insert(k, ["add", gen.seeds_for(d, draw(gen.byte_pairs(1, 3)))])
    d["rng"] = draw(gen.rng_seed)
    d["dtype"] = draw(st.sampled_from(["float64", "float64", "float32"]))
    return d


def run(case):
    P = sim.seeded(case, case["dtype"])
    np.random.seed(case["rng"])
    w = P.walk_data
    for op in case["ops"]:
        if op[0] == "add":
            P.generate_particles(len(op[1]), [s[0] for s in op[1]], [s[1] for s in op[1]], method="exact")
            w = P.walk_data
        else:
            w = sim.run_op(P, op)
    return P, w


def check(case, ctx):
    P, w = run(case)
    fields = list(case["vars"] or [])
    if case.get("roi") is not None and "roi_flag" not in fields:
        fields.append("roi_flag")
    n = len(case["seeds"]) + sum(len(o[1]) for o in case["ops"] if o[0] == "add")
    ref.check_walk(w, fields, n)
    ensure(sorted(w) == sorted(set(ref.BASE + fields)), "walk data has the fields %s, tracked are %s",
           sorted(w), fields)
    R = ref.RefDomain(case)
    grids = dict(depth=R.depth, stage=R.stage, qx=R.qrow, qy=R.qcol, u=R.urow, v=R.ucol)
    own = dict(depth=P.depth, stage=P.stage, qx=P.qx, qy=P.qy, u=P.u, v=P.v)
    rtol = 1e-9 if case["dtype"] == "float64" else 1e-5
    moved = 0
    for p in range(n):
        path = ref.path(w, p)
        moved = max(moved, len(path))
        for f in fields:
            for k, c in enumerate(path):
                x = ref.plain(w[f][p][k])
                if f == "roi_flag":
                    want = 1 if case["roi"][c[0]][c[1]] == 1 else 0
                    ensure(x == want, "particle %d entry %d at %r: region flag %r, region grid %r", p, k, c, x,
                           case["roi"][c[0]][c[1]])
                    continue
                ensure(ref.same(x, own[f][c]), "particle %d entry %d at %r: %s recorded as %r, the grid has %r",
                       p, k, c, f, x, own[f][c])
                want = float(grids[f][c])
                if f in ("u", "v"):
                    good = (abs(x - want) <= 2.1e-8 + rtol * abs(want))
                else:
                    good = ref.close(float(x), want, rtol)
                ensure(good, "particle %d entry %d at %r: %s recorded as %r, the field given has %r", p, k, c, f,
                       x, want)
    # tracking does not change the walk
    bare = dict(case, vars=[], roi=None)
    Q, w2 = run(bare)
    d = ref.diff_walk({f: w[f] for f in ref.BASE}, {f: w2[f] for f in ref.BASE})
    ensure(d is None, "tracking variables changed the walk: %s", d)
    for f in fields:
        ctx.label(f)
    ctx.label(case["dtype"])
    if case.get("roi") is not None:
        ctx.label("roi " + case["roi_dtype"])
    ctx.nontrivial(moved >= 2 and len(fields) > 0)


@st.composite
def bad(draw):
    d = draw(gen.domains(hi=6, roi=True))
    d["kind"] = draw(st.sampled_from(["name", "noroi", "shape", "shape"]))
    d["name"] = draw(st.sampled_from(["salinity", "Depth", "velocity", "xinds_", "", "topography"]))
    d["shape"] = [draw(st.integers(-2, 3)), draw(st.integers(-2, 3))]
    d["form"] = draw(st.sampled_from(["other", "transposed", "flat", "folded", "stack", "other"]))
    return d


def check_bad(case, ctx):
    import dorado.particle_track as pt
    kind = case["kind"]
    if kind in ("name", "noroi"):
        d = dict(case, roi=None)
        p = gen.make_params(d)
        p.particle_variables = ["depth", case["name"] if kind == "name" else "roi_flag"]

        def f():
            P = pt.Particles(p)
            P.generate_particles(2, [1], [1])
        refused(f, (ValueError,), "tracking %r" % (p.particle_variables,))
    else:
        p = gen.make_params(dict(case, roi=None))
        L, W = case["L"] + case["shape"][0], case["W"] + case["shape"][1]
        form = case.get("form", "other")
        if form == "other":
            shape = (L, W)
        else:
            n, m = case["L"], case["W"]
            shape = dict(transposed=(m, n), flat=(n * m,), folded=(n * m // 2, 2), stack=(n, m, 1))[form]
        if shape == (case["L"], case["W"]) or min(shape) < 1:
            return
        p.roi_grid = np.ones(shape, int)
        refused(lambda: pt.Particles(p), (ValueError,), "a region grid of shape %r on a %dx%d domain" % (
            shape, case["L"], case["W"]))
        ctx.label(form)
    ctx.label(kind)
    ctx.nontrivial()



def check_bulk(case, ctx):
    case.setdefault("vars", None)
    case["dtype"] = "float64"
    check(case, ctx)


SUBS = [
    Sub("values", cases, check, 4000, 60000,
        "random domain (also float32, velocities, NaN), any subset of variables, region grids of several types "
        "and with values other than 0/1, steps, target times and later seeding; non-trivial if something is "
        "tracked and a particle moved"),
    Sub("refusals", bad, check_bad, 400, 4000, "unknown names, region flag without grid, grids of the wrong shape; "
        "non-trivial unless the drawn shape happens to fit"),
    sim.bulk(check_bulk, tracked=True),
]
