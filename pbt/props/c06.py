"""C06 metamorphic relations of the routing weights."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure

# the eight symmetries of the square as 2x2 integer matrices acting on (row, column) vectors
D4 = {
    "identity": ((1, 0), (0, 1)), "flip rows": ((-1, 0), (0, 1)), "flip columns": ((1, 0), (0, -1)),
    "half turn": ((-1, 0), (0, -1)), "transpose": ((0, 1), (1, 0)), "quarter turn": ((0, 1), (-1, 0)),
    "three-quarter turn": ((0, -1), (1, 0)), "antitranspose": ((0, -1), (-1, 0)),
}


def mapcell(M, i, j, L, W):
    """New position of cell (i, j) and the new shape."""
    (a, b), (c, d) = M
    L2, W2 = (L, W) if b == 0 else (W, L)
    i2 = a * i + b * j
    j2 = c * i + d * j
    if a + b < 0:
        i2 += L2 - 1
    if c + d < 0:
        j2 += W2 - 1
    return i2, j2, L2, W2


def moved_grid(g, M, L, W):
    _, _, L2, W2 = mapcell(M, 0, 0, L, W)
    out = [[None] * W2 for _ in range(L2)]
    for i in range(L):
        for j in range(W):
            i2, j2, _, _ = mapcell(M, i, j, L, W)
            out[i2][j2] = g[i][j]
    return out


def get_rc(d):
    """Row and column component of the discharge as nested lists."""
    if d["model"] == "DeltaRCM":
        return d["qx"], d["qy"]
    return [[-v for v in r] for r in d["qy"]], d["qx"]


def set_rc(d, r, c):
    if d["model"] == "DeltaRCM":
        d["qx"], d["qy"] = r, c
    else:
        d["qx"], d["qy"] = c, [[-v for v in x] for x in r]


def probs(d):
    P = gen.make_particles(d)
    L, W = d["L"], d["W"]
    out = np.zeros((L, W, 9))
    for i in range(L):
        for j in range(W):
            out[i, j] = ref.normalise(P.weight[i, j])[0]
    return out


def compare(A, B, what, skip=None):
    n = 0
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            if skip is not None and skip(i, j):
                continue
            ensure(np.allclose(A[i, j], B[i, j], rtol=0, atol=1e-9),
                   "%s changes the routing probabilities of cell (%d, %d): %s against %s", what, i, j,
                   A[i, j].round(6).tolist(), B[i, j].round(6).tolist())
            n += (A[i, j] > 0).sum() >= 2
    return n


@st.composite
def cases(draw):
    d = draw(gen.domains(hi=8))
    d["rel"] = draw(st.sampled_from(["symmetry", "symmetry", "datum", "relief", "flux", "dx", "gamma1", "gamma0",
                                     "theta0", "steepdiff"]))
    d["sym"] = draw(st.sampled_from(sorted(D4)[:]))
    d["c"] = draw(st.sampled_from([2.0, 0.5, 8.0, 0.125, 2.0 ** -30, 2.0 ** 20, 64.0]))
    d["k"] = draw(st.sampled_from([3.7, 0.1, 1000.0, 1e-12, 2.0 ** -60, 1e12, 1e-3]))
    n = d["L"] * d["W"]
    d["b1"] = list(draw(gen.blob(n)))
    d["b2"] = list(draw(gen.blob(n)))
    return d


def check(case, ctx):
    d = {k: v for k, v in case.items() if k not in ("rel", "sym", "c", "k", "b1", "b2")}
    L, W = d["L"], d["W"]
    rel = case["rel"]
    R = ref.RefDomain(d)
    A = probs(d)
    e = copy.deepcopy(d)
    skip = lambda i, j: R.weights(i, j)[2]  # noqa: E731
    if rel == "symmetry":
        M = D4[case["sym"]]
        r, c = get_rc(d)
        (a, b), (g, h) = M
        r2 = [[a * r[i][j] + b * c[i][j] if a else b * c[i][j] for j in range(W)] for i in range(L)]
        r2 = [[(a * r[i][j]) if a else (b * c[i][j]) for j in range(W)] for i in range(L)]
        c2 = [[(g * r[i][j]) if g else (h * c[i][j]) for j in range(W)] for i in range(L)]
        for k in ("depth", "stage", "cell_type"):
            if d.get(k) is not None:
                e[k] = moved_grid(d[k], M, L, W)
        _, _, L2, W2 = mapcell(M, 0, 0, L, W)
        e["L"], e["W"] = L2, W2
        set_rc(e, moved_grid(r2, M, L, W), moved_grid(c2, M, L, W))
        B0 = probs(e)
        B = np.zeros_like(A)
        for i in range(L):
            for j in range(W):
                i2, j2, _, _ = mapcell(M, i, j, L, W)
                for k, (di, dj) in enumerate(ref.NB):
                    k2 = ref.NB.index((a * di + b * dj, g * di + h * dj))
                    B[i, j, k] = B0[i2, j2, k2]
        what = "symmetry '%s'" % case["sym"]
    elif rel == "datum":
        e["stage"] = [[v + 2.0 ** 6 * min(1.0, case["c"]) for v in r] for r in d["stage"]]
        B, what = probs(e), "raising the water surface and bed by a constant"
    elif rel == "relief":
        e["stage"] = [[v * case["c"] for v in r] for r in d["stage"]]     # powers of two: exact
        B, what = probs(e), "scaling the water surface relief"
    elif rel == "flux":
        e["qx"] = [[v * case["k"] for v in r] for r in d["qx"]]
        e["qy"] = [[v * case["k"] for v in r] for r in d["qy"]]
        B, what = probs(e), "scaling the discharge"
    elif rel == "dx":
        e["dx"] = d["dx"] * case["k"]
        B, what = probs(e), "changing the cell size"
    elif rel == "gamma1":
        d["gamma"] = e["gamma"] = 1.0
        A = probs(d)
        e["qx"] = gen.grid(bytes(case["b1"]), gen.FLUX, L, W)
        e["qy"] = gen.grid(bytes(case["b2"]), gen.FLUX, L, W)
        B, what = probs(e), "changing the discharge at gamma = 1"
        skip = None
    elif rel == "gamma0":
        d["gamma"] = e["gamma"] = 0.0
        A = probs(d)
        s2 = gen.grid(bytes(case["b1"]), gen.LEVEL, L, W)
        e["stage"] = [[d["stage"][i][j] if gen.isnan(d["stage"][i][j]) else s2[i][j] for j in range(W)]
                      for i in range(L)]
        B, what = probs(e), "changing the water surface at gamma = 0"
    elif rel == "theta0":
        d["theta"] = e["theta"] = 0.0
        A = probs(d)
        e["depth"] = [[v if not (v > R.dry) else R.dry + 0.5 + case["b1"][i * W + j] / 32.0
                       for j, v in enumerate(r)] for i, r in enumerate(d["depth"])]
        B, what = probs(e), "deepening wet cells at theta = 0"
        skip = lambda i, j: R.weights(i, j)[2] or R.weights(i, j)[1]  # noqa: E731
    else:
        e["sd"] = not d["sd"]
        e["diff"] = 0.5
        B, what = probs(e), "switching steepest descent or diffusion"
    n = compare(A, B, what, skip)
    ctx.label(rel if rel != "symmetry" else "symmetry: " + case["sym"])
    ctx.nontrivial(n > 0 and not (rel == "symmetry" and case["sym"] == "identity"))


SUBS = [Sub("relations", cases, check, 6000, 100000,
            "random domain and a transformed copy (eight symmetries, datum, relief, discharge, cell size, "
            "gamma 1/0, theta 0, walk mode); all cells compared; non-trivial if some cell has two or more "
            "destinations and the transformation is not the identity")]


@st.composite
def bulk_cases(draw):
    c = draw(sim.bulk_cases(ns=(5,), max_ops=1))
    c["rel"] = draw(st.sampled_from(["symmetry", "symmetry", "symmetry", "datum", "relief", "flux", "dx", "steepdiff"]))
    c["sym"] = draw(st.sampled_from(sorted(D4)))
    c["c"] = draw(st.sampled_from([2.0, 0.125]))
    c["k"] = draw(st.sampled_from([3.7, 1e-3]))
    return c


def check_bulk(case, ctx):
    d = sim.expand(case)
    d["stage"] = (np.round(np.array(d["stage"]) * 1024) / 1024).tolist()     # so that a shift is exact
    check({k: v for k, v in d.items() if k not in ("seeds", "ops", "rng", "bulk_seed")}, ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 24, 400, "rasters of up to 40x120 and 130x24 cells, described by sizes and a seed; "
                "symmetries, datum, relief, discharge, cell size, walk mode; non-trivial as above"))
