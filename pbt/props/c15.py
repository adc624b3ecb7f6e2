"""C15 equivalent descriptions of the flow field give the same routing."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure

TECHNIQUE = "property-based testing (Hypothesis): metamorphic, equivalent descriptions of one flow field"
NAN = float("nan")
GEOM = ["DS", "DZ", "SZ", "DSZ"]
FLOW = ["q", "u", "qu"]
MODEL = [None, "DeltaRCM", "anuga", "empty", "deltarcm"]


@st.composite
def cases(draw):
    L, W = draw(gen.shapes(4, 10))
    n = L * W
    g = lambda pal: gen.grid(draw(gen.blob(n)), pal, L, W)
    dep = g(draw(st.sampled_from([gen.DEPTH_WET, [1.0, 0.0, 2.0, 0.25, 0.5, 0.0, 1.0, 3.0, 0.75, 0.125],
                                  [1.0, 2.0 ** -12, 0.0, 0.5, 2.0 ** -21, 0.25, 2.0 ** -10, 1.0],    # films of water
                                  [0.0, 1.0, 0.0, 0.5, 0.0, 0.0625]])))
    bed = g([0.0, 1.0, -1.0, 0.5, 0.25, -0.25, 2.0, -2.0])
    base, small = draw(st.sampled_from([[0.0, None], [0.0, 1.0], [1024.0, 2.0 ** -20], [-512.0, 2.0 ** -10], [4096.0, None]]))
    for i in range(L):      # an uneven bed, or a given relief of the water surface high above or below elevation zero
        for j in range(W):
            bed[i][j] = base + bed[i][j] if small is None else base + small * bed[i][j] - dep[i][j]
    uu, vv = g(gen.FLUX), g(gen.FLUX)
    junk = draw(gen.blob(n))
    stg = [[bed[i][j] + dep[i][j] for j in range(W)] for i in range(L)]
    # dry cells: how each description says so
    dsay, ssay, zsay = ([list(r) for r in x] for x in (dep, stg, bed))
    for i in range(L):
        for j in range(W):
            if dep[i][j] == 0:
                k = junk[i * W + j]
                uu[i][j] = vv[i][j] = 0.0
                ssay[i][j] = [bed[i][j], bed[i][j] - 1.0, bed[i][j] - 0.25, NAN][k % 4]
                if k // 4 % 3 == 1:
                    dsay[i][j] = NAN
                if k // 16 % 4 == 3:
                    zsay[i][j] = NAN
                elif k // 16 % 4 == 2 and k % 4 < 3:
                    zsay[i][j] = bed[i][j] + 3.0     # "negative computed depth"
    # missing flow counts as none
    nanu = draw(st.booleans())
    mk = lambda: [draw(st.sampled_from(GEOM)), draw(st.sampled_from(FLOW)), draw(st.sampled_from(MODEL)),
                  draw(st.booleans())]
    d = dict(L=L, W=W, D=dsay, S=ssay, Z=zsay, D0=dep, U=uu, V=vv, nanu=nanu, junk=list(junk), a=mk(), b=mk(),
             dx=draw(st.sampled_from([1.0, 50.0, 0.5])), theta=draw(st.sampled_from([1.0, 0.0, 2.0])),
             gamma=draw(st.sampled_from([0.05, 0.0, 1.0, 0.5])), diff=draw(st.sampled_from([0.0, 0.2])),
             dry=draw(st.sampled_from([0.1, 0.01, 0.0, 0.3])), sd=draw(st.booleans()), rng=draw(gen.rng_seed))
    d["seeds"] = gen.seeds_for(d, draw(gen.byte_pairs(1, 5)), border=False)
    d["ops"] = draw(sim.op_lists(1, 3, 10, 15))
    return d


def describe(case, way):
    """Parameter dict of the domain: way = [geometry, flow, model, missing flow as NaN]."""
    geom, flow, model, asnan = way
    L, W = case["L"], case["W"]
    d = {k: case[k] for k in ("L", "W", "dx", "theta", "gamma", "diff", "dry", "sd", "seeds", "ops", "rng")}
    d["cell_type"] = None
    if "D" in geom:
        d["depth"] = case["D"]
    if "S" in geom:
        d["stage"] = case["S"]
    if "Z" in geom:
        d["topography"] = case["Z"]
        if geom == "DZ":     # then the bed of a dry cell does not matter
            pass
    d["model"] = {"empty": "", None: None}.get(model, model)
    U, V = np.array(case["U"]), np.array(case["V"])       # down the rows, along the columns
    D = np.array(case["D0"])
    QU, QV = U * D, V * D

    def conv(a, b):
        a, b = a.copy(), b.copy()
        if asnan:
            a[a == 0] = np.nan
            b[b == 0] = np.nan
        if model == "DeltaRCM":
            return a.tolist(), b.tolist()
        return b.tolist(), (-a).tolist()
    if "q" in flow:
        d["qx"], d["qy"] = conv(QU, QV)
    else:
        d["qx"] = d["qy"] = None
    if "u" in flow:
        if flow == "qu":      # must be ignored
            J = (np.array(case["junk"]).reshape(L, W) - 100) / 7.0
            d["u"], d["v"] = conv(J, J[::-1, ::-1])
        else:
            d["u"], d["v"] = conv(U, V)
    return d


def check(case, ctx):
    a, b = describe(case, case["a"]), describe(case, case["b"])
    P, Q = gen.make_particles(a), gen.make_particles(b)
    what = "%r against %r: " % (case["a"], case["b"])
    D = np.array(case["D0"])
    with np.errstate(all="ignore"):
        rel = np.where(D > 0, 2e-8 / D ** 2, 0) + 1e-12
    for name in ("depth", "stage", "qx", "qy"):
        x, y = np.asarray(getattr(P, name), float), np.asarray(getattr(Q, name), float)
        ensure(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), what + "%s differs: %r against %r", name,
               x.tolist(), y.tolist())
    # and they are what was described
    S = np.array(case["S"])
    ensure(np.array_equal(P.depth, D), what + "depth is %r, described was %r", P.depth.tolist(), D.tolist())
    wet = D > 0
    ensure(np.array_equal(P.stage[wet], S[wet]) and np.isnan(P.stage[~wet]).all(),
           what + "stage is %r, described was %r (dry: missing)", P.stage.tolist(), S.tolist())
    QU, QV = np.array(case["U"]) * D, np.array(case["V"]) * D
    ensure(np.array_equal(P.qx, QU) and np.array_equal(P.qy, QV), what + "discharge down the rows is %r, described was "
           "%r; along the columns %r, described was %r", P.qx.tolist(), QU.tolist(), P.qy.tolist(), QV.tolist())
    for name in ("u", "v", "velocity"):
        x, y = getattr(P, name), getattr(Q, name)
        ensure(bool(np.all(np.abs(x - y) <= rel * (np.abs(x) + np.abs(y)) + 2.1e-8)), what + "%s differs: %r against %r",
               name, x.tolist(), y.tolist())
    speed = np.hypot(np.array(case["U"]), np.array(case["V"]))
    ensure(bool(np.all(np.abs(P.velocity - np.maximum(speed, 1e-8)) <= rel * speed + 2.1e-8)),
           what + "speed is %r, described was %r", P.velocity.tolist(), speed.tolist())
    wa, wb = np.nan_to_num(np.array(P.weight)), np.nan_to_num(np.array(Q.weight))
    ensure(np.array_equal(wa, wb), what + "routing weights differ")
    ensure(np.array_equal(P.cell_type, Q.cell_type), what + "cell types differ")
    out = []
    for X, d in ((P, a), (Q, b)):
        X.generate_particles(len(case["seeds"]), [s[0] for s in case["seeds"]], [s[1] for s in case["seeds"]],
                             method="exact")
        np.random.seed(case["rng"])
        out.append(X)
    same_flow = ("q" in case["a"][1]) == ("q" in case["b"][1])
    states = []
    for X in out:
        np.random.seed(case["rng"])
        for op in case["ops"]:
            if same_flow or op[0] == "step":
                w = sim.run_op(X, op)
        states.append(ref.snap(X.walk_data))
    p, q = states
    thin = bool(wet.any()) and float(np.min(D[D > 0])) < 0.05
    if same_flow:
        d = ref.diff_walk(p, q, exact=True)
    else:
        d = ref.diff_walk({k: p[k] for k in p if k != "travel_times"}, {k: q[k] for k in q if k != "travel_times"})
        if d is None and not thin:      # the discharge of a film does not give its speed
            for n, (s, t) in enumerate(zip(p["travel_times"], q["travel_times"])):
                for x, y in zip(s, t):
                    # stagnant and nearly perpendicular steps are left out
                    if max(abs(x), abs(y)) < 1e4 * case["dx"]:
                        ensure(abs(x - y) <= 1e-4 * case["dx"] * (1 + max(abs(x), abs(y))) + 1e-3 * max(abs(x), abs(y)),
                               what + "travel times of particle %d: %r against %r", n, s, t)
                    else:
                        break
    ensure(d is None, what + "walks differ: %s", d)
    ctx.label("geometry %s/%s" % tuple(sorted([case["a"][0], case["b"][0]])))
    ctx.label("flow %s/%s" % tuple(sorted([case["a"][1], case["b"][1]])))
    ctx.label("DeltaRCM/other" if (case["a"][2] == "DeltaRCM") != (case["b"][2] == "DeltaRCM") else "one convention")
    ctx.nontrivial(case["a"] != case["b"] and max(len(x) for x in p["xinds"]) > 1)


SUBS = [Sub("descriptions", cases, check, 4000, 60000,
            "one flow field (dyadic values, dry cells) described in two of 4 x 3 x 5 x 2 ways (which of depth, stage, "
            "bed; discharge or velocity or both; convention; missing as NaN); fields, weights and walks compared; "
            "non-trivial if the ways differ and a particle moved")]


@st.composite
def bulk_cases(draw):
    mk = lambda: [draw(st.sampled_from(GEOM)), draw(st.sampled_from(FLOW)), draw(st.sampled_from(MODEL)), draw(st.booleans())]
    L, W = draw(st.sampled_from([[40, 60], [80, 30], [25, 130]]))
    return dict(L=L, W=W, bulk=draw(gen.rng_seed), a=mk(), b=mk(), dx=draw(st.sampled_from([1.0, 50.0])), theta=1.0,
                gamma=draw(st.sampled_from([0.05, 0.5])), diff=draw(st.sampled_from([0.0, 0.2])), dry=draw(st.sampled_from([0.1, 0.01])),
                sd=draw(st.booleans()), rng=draw(gen.rng_seed), ops=draw(sim.op_lists(1, 3, 20, 25)))


def check_bulk(case, ctx):
    L, W = case["L"], case["W"]
    rs = np.random.RandomState(case["bulk"])
    D = rs.choice([1.0, 2.0, 0.5, 0.25, 3.0, 0.0, 1.0, 1.5], (L, W))
    Z = rs.choice([0.0, 0.5, 0.25, -0.25, 1.0], (L, W))
    S = Z + D
    U, V = rs.choice(gen.FLUX, (2, L, W))
    U[D == 0] = 0.0
    V[D == 0] = 0.0
    D0 = D.copy()
    S[(D == 0) & (rs.rand(L, W) < 0.4)] = NAN
    D[(D == 0) & (rs.rand(L, W) < 0.4)] = NAN
    check(dict(case, D=D.tolist(), S=S.tolist(), Z=Z.tolist(), D0=D0.tolist(), U=U.tolist(), V=V.tolist(),
               junk=rs.randint(0, 256, L * W).tolist(), seeds=[[int(x), int(y)] for x, y in zip(
                   rs.randint(2, L - 2, 40), rs.randint(2, W - 2, 40))]), ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 32, 500, "the same on rasters of up to 40x60 and 25x130 cells with 40 particles, "
                "described by sizes and a seed; non-trivial as above"))
