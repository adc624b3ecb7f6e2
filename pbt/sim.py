"""Routing scenarios shared by several properties: a domain, seeds, and a list of operations."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub


@st.composite
def op_lists(draw, lo=1, hi=6, max_steps=25, max_lim=40, targets=True):
    ops = []
    for _ in range(draw(st.integers(lo, hi))):
        if targets and draw(st.booleans()):
            ops.append(["target", draw(st.sampled_from(
                [10.0, 1.0, 100.0, 0.3, 1000.0, 5000.0, 0.0, -5.0, 33.3, 1e5])),
                draw(st.integers(1, max_lim))])
        else:
            ops.append(["step", draw(st.integers(1, max_steps))])
    return ops


@st.composite
def scenarios(draw, border=True, npmin=1, npmax=6, ops=True, max_steps=25, targets=True, op_hi=4,
              max_lim=40, **kw):
    d = draw(gen.domains(**kw))
    pairs = draw(gen.byte_pairs(npmin, npmax))
    d["seeds"] = gen.seeds_for(d, pairs, border=border)
    if ops:
        d["ops"] = draw(op_lists(1, op_hi, max_steps, max_lim, targets))
    d["rng"] = draw(gen.rng_seed)
    return d


def seeded(case, dtype="float64"):
    """Particles object with the case's seeds placed exactly, in order."""
    P = gen.make_particles(case, dtype)
    xs = [s[0] for s in case["seeds"]]
    ys = [s[1] for s in case["seeds"]]
    if case.get("rng", 0) % 3 == 1:
        xs, ys = np.array(xs), np.array(ys)
    P.generate_particles(len(xs), xs, ys, method="exact",
                         **({"seed_time": case["t0"]} if case.get("t0") is not None else {}))
    return P


def run_op(P, op):
    if op[0] == "step":
        w = None
        for _ in range(op[1]):
            w = P.run_iteration()
        return w
    if op[0] == "target":
        return P.run_iteration(target_time=op[1], max_iter=op[2])
    raise AssertionError(op)


def simulate(case, on_op=None):
    """Run the scenario; returns (Particles, final walk data)."""
    P = seeded(case)
    np.random.seed(case["rng"])
    w = P.walk_data
    for k, op in enumerate(case["ops"]):
        w = run_op(P, op)
        fields = list(case.get("vars") or [])
        ref.check_walk(w, fields, len(case["seeds"]), "walk data after %s" % (op,))
        if on_op is not None:
            on_op(k, op, P, w)
    return P, w


def domain_labels(case, ctx):
    ctx.label("sd" if case.get("sd") else "walk")
    ctx.label("model=%s" % case.get("model"))
    ctx.label("cell_type=%s" % ("inferred" if case.get("cell_type") is None else "given"))
    if any(v != v for row in case.get("depth") or [] for v in row):
        ctx.label("nan depth")


# Large scenarios: many particles, large rasters, many operations.  The case holds sizes and a seed only; expand()
# turns it into the full scenario.

@st.composite
def bulk_cases(draw, budget=6000, sd=None, targets=True, diff=None, dry=True, ns=(5, 600, 40, 150, 25, 300, 1100),
               frames=("basin", "inferred"), tracked=False, max_ops=3):
    n = draw(st.sampled_from(list(ns)))
    L, W = draw(st.sampled_from([[12, 290], [60, 45], [24, 300], [190, 190], [270, 14], [130, 24], [20, 30], [35, 35], [25, 12]]))
    steps = max(2, budget // n)
    ops = []
    k = draw(st.integers(1, max_ops))
    for _ in range(k):
        m = max(1, min(steps // k, 400))
        if targets and draw(st.booleans()):
            ops.append(["target", draw(st.sampled_from([3.0, 30.0, 0.5, 300.0, 1e6])), m])
        else:
            ops.append(["step", m])
    c = dict(bulk=draw(gen.rng_seed), L=L, W=W, n=n, frame=draw(st.sampled_from(list(frames))), ops=ops,
             rough=draw(st.sampled_from([0.0, 0.5, 0.1])), flow=draw(st.sampled_from(["turn", "drift", "noise"])),
             dryness=draw(st.sampled_from([0.0, 0.08, 0.2])) if dry else 0.0,
             spread=draw(st.booleans()), dx=draw(st.sampled_from([1.0, 50.0])),
             model=draw(st.sampled_from([None, "DeltaRCM"])), gamma=draw(st.sampled_from([0.05, 0.5])), theta=1.0, dry=0.1,
             sd=draw(st.booleans()) if sd is None else sd, diff=draw(st.sampled_from([0.0, 0.5])) if diff is None else diff,
             rng=draw(gen.rng_seed))
    if tracked:
        c["vars"] = draw(st.lists(st.sampled_from(["depth", "stage", "qx", "qy", "u", "v"]), unique=True, max_size=3))
        if draw(st.booleans()):
            c["roi_k"] = draw(st.integers(2, 7))
    return c


def expand(case):
    """The full scenario of a bulk case."""
    L, W, n = case["L"], case["W"], case["n"]
    rs = np.random.RandomState(case["bulk"])
    d = {k: v for k, v in case.items() if k not in ("bulk", "n", "frame", "rough", "flow", "dryness", "spread", "roi_k")}
    depth = 1.0 + case["rough"] * rs.rand(L, W)
    depth[rs.rand(L, W) < case["dryness"]] = 0.02
    stage = 0.25 * case["rough"] * rs.rand(L, W)
    i, j = np.indices((L, W))
    r, c = 0.3 * (rs.rand(2, L, W) - 0.5)
    if case["flow"] == "turn":      # round the middle, outwards enough not to get stuck there
        a, b = (i - (L - 1) / 2.0) / L, (j - (W - 1) / 2.0) / W
        r, c = r * 0.3 - 2 * b + 0.3 * a, c * 0.3 + 2 * a + 0.3 * b
    elif case["flow"] == "drift":
        r, c = r * 0.5 + 0.6, c * 0.5 + 0.4
    d["bulk_seed"] = case["bulk"] // 3
    d["ops"] = [list(op) for op in case["ops"]]
    d.update(depth=depth.tolist(), stage=stage.tolist(), cell_type=None)
    if case["model"] == "DeltaRCM":
        d.update(qx=r.tolist(), qy=c.tolist())
    else:
        d.update(qx=c.tolist(), qy=(-r).tolist())
    if case["frame"] == "basin":
        ct = np.zeros((L, W), int)
        ct[[0, -1], :] = 2
        ct[:, [0, -1]] = 2
        d["cell_type"] = ct.tolist()
    if case.get("roi_k"):
        d["roi"] = ((i + 3 * j) % case["roi_k"] == 0).astype(int).tolist()
        d["roi_dtype"] = "int64"
    if case["spread"]:
        d["seeds"] = [[int(x), int(y)] for x, y in zip(rs.randint(2, L - 2, n), rs.randint(2, W - 2, n))]
    else:
        d["seeds"] = [[int(x), int(y)] for x, y in zip(L // 2 + rs.randint(-3, 4, n), W // 2 + rs.randint(-3, 4, n))]
    return d


def bulk(check, quick=48, thorough=1000, rule="non-trivial as above", extra={}, **kw):
    """A sub-check on large scenarios."""
    return Sub("bulk", lambda: bulk_cases(**kw), lambda case, ctx: check(dict(expand(case), **extra), ctx), quick, thorough,
               "the same with 5 to 1100 particles on rasters of up to 60x45, 130x24, 12x290, 24x300, 270x14 and 190x190 cells and up to 400 steps per "
               "call, described by sizes and a seed; " + rule)
