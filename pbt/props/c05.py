"""C05 steps are drawn according to the weights; steepest descent takes the best, ties evenly."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2

from pbt import gen, ref, sim
from pbt.core import Sub, ensure

PMIN = 1e-9


def chi_p(counts, probs):
    """p-value of a likelihood-ratio test (its far tail holds for small counts, too), small classes merged."""
    n = sum(counts)
    pairs = sorted(zip(probs, counts), key=lambda pc: pc[0])     # merging must not look at the counts
    merged = []
    accp = accc = 0.0
    for p, c in pairs:
        accp += p
        accc += c
        if accp * n >= 10:
            merged.append((accp, accc))
            accp = accc = 0.0
    if accp > 0:
        if merged:
            q = merged.pop()
            merged.append((q[0] + accp, q[1] + accc))
        else:
            merged.append((accp, accc))
    if len(merged) < 2:
        return 1.0
    x = 2 * sum(c * np.log(c / (p * n)) for p, c in merged if c)
    return float(chi2.sf(x, len(merged) - 1))


def probs_of(w0):
    p, t = ref.normalise(w0)
    return p


def allowed_sd(w0):
    """Set of moves steepest descent may take from raw weights (NaN -> 0)."""
    w = np.nan_to_num(np.array(w0, float), nan=0.0)
    o = [w[k] if k != 4 else -1.0 for k in range(9)]
    m = max(o)
    if m <= 0 or w[4] > m:
        return {4}, {4}
    exact = {k for k in range(9) if o[k] == m}
    near = {k for k in range(9) if o[k] >= m * (1 - 1e-9)}
    return exact, near


def judge(counts, w0, sd, where, R=None, cell=None):
    """counts: dict move index -> number of times."""
    n = sum(counts.values())
    p = probs_of(w0)
    if sd:
        exact, near = allowed_sd(w0)
        for k in counts:
            ensure(k in near, "%s: steepest descent moved %s, best are %s (weights %s)", where, ref.NB[k],
                   [ref.NB[q] for q in sorted(near)], np.asarray(w0).tolist())
        if exact == near and len(exact) > 1 and n >= 40:
            q = chi_p([counts.get(k, 0) for k in sorted(exact)], [1.0 / len(exact)] * len(exact))
            ensure(q > PMIN, "%s: ties not broken evenly: %s (p=%.2g)", where,
                   {str(ref.NB[k]): v for k, v in counts.items()}, q)
            return len(exact)
        return 1
    if p.sum() == 0:     # no destination at all (raster border): stays where it is
        p[4] = 1.0
    for k, c in counts.items():
        ensure(p[k] > 0, "%s: moved %s, which has no weight (%s)", where, ref.NB[k], np.asarray(w0).tolist())
    q = chi_p([counts.get(k, 0) for k in range(9) if p[k] > 0], [p[k] for k in range(9) if p[k] > 0])
    ensure(q > PMIN, "%s: %d moves %s against probabilities %s (p=%.2g)", where, n,
           {str(ref.NB[k]): v for k, v in sorted(counts.items())}, p.round(4).tolist(), q)
    return int((p > 0).sum())


@st.composite
def first_cases(draw):
    d = draw(gen.domains(lo=5, hi=8, celltypes=False))
    d["cell_type"] = [[0] * d["W"] for _ in range(d["L"])]
    m = draw(gen.blob(4))
    for k in range(0, 4, 2):     # a little land
        if m[k] % 3 == 2:
            d["cell_type"][m[k] % d["L"]][m[k + 1] % d["W"]] = 2
    d["cell"] = [draw(st.integers(1, d["L"] - 2)), draw(st.integers(1, d["W"] - 2))]
    d["np"] = draw(st.sampled_from([300, 600, 1000]))
    d["rng"] = draw(gen.rng_seed)
    d["mode"] = draw(st.sampled_from(["step", "target"]))
    return d


def check_first(case, ctx):
    """Many particles leave one cell; their first moves follow the weights of that cell."""
    P = gen.make_particles(case)
    i, j = case["cell"]
    w0 = np.array(P.weight[i, j], float)
    n = case["np"]
    P.generate_particles(n, [i], [j], method="exact")
    np.random.seed(case["rng"])
    if case["mode"] == "step":
        w = P.run_iteration()
    else:
        w = P.run_iteration(target_time=1000.0 * case["dx"], max_iter=1)
    ref.check_walk(w, [], n)
    counts = {}
    for p in range(n):
        a, b = (w["xinds"][p][1], w["yinds"][p][1]) if len(w["xinds"][p]) > 1 else (i, j)
        k = (a - i + 1) * 3 + (b - j + 1)
        ensure(0 <= k < 9 and abs(a - i) <= 1 and abs(b - j) <= 1, "move from %r to %r", (i, j), (a, b))
        counts[k] = counts.get(k, 0) + 1
    R = ref.RefDomain(case)
    want, dead, doubtful = R.weights(i, j)
    m = judge(counts, w0, case["sd"], "first move from %r" % ((i, j),))
    if not doubtful:
        judge(counts, want, case["sd"], "first move from %r (documented law)" % ((i, j),)) if not case["sd"] \
            else None
    ctx.label("sd" if case["sd"] else "walk")
    ctx.label("destinations=%d" % m)
    ctx.label("mode=" + case["mode"])
    ctx.nontrivial(m >= 2)


@st.composite
def visit_cases(draw):
    d = draw(gen.domains(lo=5, hi=7, celltypes=False, sd=draw(st.sampled_from([False, False, True])),
                         water="wet"))
    L, W = d["L"], d["W"]
    d["cell_type"] = [[0] * W for _ in range(L)]
    # closed basin: water around a border of land keeps everybody inside and walking
    for i in range(L):
        for j in range(W):
            if i in (0, L - 1) or j in (0, W - 1):
                d["cell_type"][i][j] = 2
    if draw(st.integers(0, 3)):     # keep the particles going round
        sg = draw(st.sampled_from([1.0, -1.0]))
        b = draw(gen.blob(L * W))
        for i in range(L):
            for j in range(W):
                r, c = sg * (j - (W - 1) / 2.0), -sg * (i - (L - 1) / 2.0)   # row, column component
                d["qx"][i][j], d["qy"][i][j] = (r, c) if d["model"] == "DeltaRCM" else (c, -r)
                d["qx"][i][j] += (b[i * W + j] % 8) / 16.0
                d["stage"][i][j] = 1.0 + (b[i * W + j] // 8) / 256.0
        d["gamma"] = draw(st.sampled_from([0.05, 0.0, 0.25]))
    d["steps"] = draw(st.sampled_from([60, 120]))
    d["seeds"] = gen.seeds_for(d, draw(gen.byte_pairs(6, 20)), border=False)
    d["rng"] = draw(gen.rng_seed)
    d["one"] = draw(st.booleans())
    return d


def check_visits(case, ctx):
    """Moves out of every visited cell, at first and at later visits, follow the weights."""
    P = sim.seeded(case)
    w0 = np.array(P.weight, float)
    np.random.seed(case["rng"])
    n = len(case["seeds"])
    counts = {}
    for s in range(case["steps"]):
        pos = [(P.walk_data["xinds"][p][-1], P.walk_data["yinds"][p][-1]) for p in range(n)]
        w = P.run_iteration()
        for p in range(n):
            i, j = pos[p]
            a, b = w["xinds"][p][-1], w["yinds"][p][-1]
            k = (a - i + 1) * 3 + (b - j + 1)
            c = counts.setdefault((i, j), {})
            half = c.setdefault("late" if s * 2 >= case["steps"] else "early", {})
            half[k] = half.get(k, 0) + 1
    many = 0
    for (i, j), halves in counts.items():
        allc = {}
        for h, c in halves.items():
            m = judge(c, w0[i, j], case["sd"], "%s moves out of %r" % (h, (i, j)))
            for k, v in c.items():
                allc[k] = allc.get(k, 0) + v
        m = judge(allc, w0[i, j], case["sd"], "moves out of %r" % ((i, j),))
        if m > 1 and sum(allc.values()) >= 50:
            many += 1
    ctx.label("sd" if case["sd"] else "walk")
    ctx.label("cells with 2+ destinations left 50+ times", many)
    ctx.nontrivial(many >= 2)


@st.composite
def tie_cases(draw):
    """Flat, symmetric surroundings: several neighbours share the largest weight."""
    L, W = draw(gen.shapes(5, 7))
    d = dict(L=L, W=W, dx=1.0, model=None, theta=1.0, gamma=draw(st.sampled_from([1.0, 0.5, 0.05])),
             diff=0.0, dry=0.1, sd=True)
    d["cell_type"] = [[0] * W for _ in range(L)]
    i, j = draw(st.integers(1, L - 2)), draw(st.integers(1, W - 2))
    d["cell"] = [i, j]
    dep = [[1.0] * W for _ in range(L)]
    stg = [[1.0] * W for _ in range(L)]
    mask = draw(st.integers(1, 255))
    kind = draw(st.sampled_from(["drop", "pit"]))
    less = [draw(st.sampled_from([0.0, 2.0 ** -12, 2.0 ** -16, 2.0 ** -24, 2.0 ** -8, 0.0])) for _ in range(9)] \
        if draw(st.booleans()) else [0.0] * 9     # not quite as good
    b = 0
    for k, (di, dj) in enumerate(ref.NB):
        if k == 4:
            continue
        on = mask >> b & 1
        b += 1
        if kind == "drop":     # equal slope: drop proportional to the distance is inexact, use 4-neighbours/diagonals
            stg[i + di][j + dj] = 0.5 + less[k] if on else 2.0
        else:                  # dead end with several deepest cells
            dep[i + di][j + dj] = 2.0 - less[k] if on else 1.0
    d.update(depth=dep, stage=stg, qx=[[0.0] * W for _ in range(L)], qy=[[0.0] * W for _ in range(L)])
    d["np"] = 800
    d["mode"] = draw(st.sampled_from(["step", "target"]))
    d["rng"] = draw(gen.rng_seed)
    return d


@st.composite
def rare_cases(draw):
    """One step by very many particles, one destination being unlikely."""
    L, W = draw(gen.shapes(5, 6))
    d = dict(L=L, W=W, dx=1.0, model=None, dry=0.001, diff=0.0, sd=False)
    d["gamma"] = draw(st.sampled_from([0.05, 0.0, 1.0]))
    d["theta"] = draw(st.sampled_from([1.0, 2.0, 0.5]))
    d["cell_type"] = [[0] * W for _ in range(L)]
    i, j = d["cell"] = [draw(st.integers(1, L - 2)), draw(st.integers(1, W - 2))]
    u = draw(st.sampled_from([1.0, 2.0 ** -6, 2.0 ** -10]))      # depth unit: weights of any size
    dep = [[u] * W for _ in range(L)]
    stg = [[1.0] * W for _ in range(L)]
    b = draw(gen.blob(9))
    for k, (di, dj) in enumerate(ref.NB):
        stg[i + di][j + dj] = 1.0 - (b[k] % 4) / 8.0
        dep[i + di][j + dj] = u * [1.0, 0.03125, 1.0, 4.0][b[k] // 4 % 4]
    stg[i][j] = 1.0
    d["dry"] = u * 0.001
    d.update(depth=dep, stage=stg, qx=[[draw(st.sampled_from([1.0, -1.0, 0.5]))] * W for _ in range(L)],
             qy=[[draw(st.sampled_from([0.5, 1.0, -0.25]))] * W for _ in range(L)])
    d["np"] = 6000
    d["mode"] = "step"
    d["rng"] = draw(gen.rng_seed)
    return d


def check_rare(case, ctx):
    check_first(case, ctx)
    p = sorted(x for x in ref.RefDomain(case).weights(*case["cell"])[0] if x > 0)
    ctx.is_nt = False
    if p[0] < 0.02 and p[0] * case["np"] > 25:
        ctx.label("chance of %.3f or less" % 0.02)
        ctx.nontrivial()


@st.composite
def remote_cases(draw):
    """Chances far below one in a thousand."""
    d = draw(rare_cases())
    i, j = d["cell"]
    d["theta"] = draw(st.sampled_from([1.0, 2.0]))
    low = [2.0 ** -10, 2.0 ** -9, 2.0 ** -8, 2.0 ** -11] if d["theta"] == 1 else [2.0 ** -5, 2.0 ** -5, 2.0 ** -4]
    u = d["dry"] / 0.001
    d["dry"] = u * 1e-5
    some = draw(st.integers(1, 255))
    for q, k in enumerate([0, 1, 2, 3, 5, 6, 7, 8]):
        di, dj = ref.NB[k]
        d["depth"][i + di][j + dj] = u * (draw(st.sampled_from(low)) if some >> q & 1 else 1.0)
    d["np"] = 60000
    return d


def check_remote(case, ctx):
    check_first(case, ctx)
    p = sorted(x for x in ref.RefDomain(case).weights(*case["cell"])[0] if x > 0)
    ctx.is_nt = False
    if p[0] / sum(p) < 0.001 and len(p) > 1:
        ctx.label("chance below 0.001")
        ctx.nontrivial()


@st.composite
def pair_cases(draw):
    d = draw(gen.domains(lo=5, hi=8, celltypes=False, sd=False, water="wet"))
    d["sd"] = False
    d["cell_type"] = [[0] * d["W"] for _ in range(d["L"])]
    d["cell"] = [draw(st.integers(1, d["L"] - 2)), draw(st.integers(1, d["W"] - 2))]
    d["np"] = draw(st.sampled_from([600, 1500, 2400]))
    d["diff"] = draw(st.sampled_from([0.0, 0.5]))
    d["rng"] = draw(gen.rng_seed)
    return d


def check_pairs(case, ctx):
    """Moves of different particles, and successive moves of one, are independent draws."""
    P = gen.make_particles(case)
    i, j = case["cell"]
    w0 = np.array(P.weight, float)
    n = case["np"]
    P.generate_particles(n, [i], [j], method="exact")
    np.random.seed(case["rng"])
    path = [[(i, j)] for _ in range(n)]
    for _ in range(2):
        w = P.run_iteration()
        for p in range(n):
            path[p].append((int(w["xinds"][p][-1]), int(w["yinds"][p][-1])))

    def probs(c):
        p = probs_of(w0[c])
        if p.sum() == 0:
            p[4] = 1.0
        return p
    move = [[(b[0] - a[0] + 1) * 3 + b[1] - a[1] + 1 for a, b in zip(q, q[1:])] for q in path]
    p0 = probs((i, j))
    some = int((p0 > 0).sum())
    both = [p0[a] * p0[b] for a in range(9) for b in range(9)]

    def judge_pairs(pairs, want, what):
        counts = [0] * 81
        for a, b in pairs:
            counts[9 * a + b] += 1
        ensure(all(p > 0 or not c for p, c in zip(want, counts)), "%s: impossible moves %r", what, pairs[:3])
        keep = [k for k in range(81) if want[k] > 0]
        q = chi_p([counts[k] for k in keep], [want[k] for k in keep])
        ensure(q > PMIN, "%s out of %r are not independent draws (p=%.2g)", what, (i, j), q)
    h = n // 2
    judge_pairs([(move[2 * k][0], move[2 * k + 1][0]) for k in range(h)], both, "moves of neighbouring particles")
    judge_pairs([(move[k][0], move[k + h][0]) for k in range(h)], both, "moves of particles of the two halves")
    judge_pairs([(move[k][0], move[k + 2][0]) for k in range(n - 2) if k % 4 < 2], both, "moves of every other particle")
    nxt = {b: probs((i + b // 3 - 1, j + b % 3 - 1)) for b in range(9) if p0[b] > 0}
    two = [p0[a] * (nxt[a][b] if a in nxt else 0) for a in range(9) for b in range(9)]
    judge_pairs([tuple(m) for m in move], two, "the first two moves of a particle")
    ctx.label("destinations=%d" % some)
    ctx.nontrivial(some >= 2)


SUBS = [
    Sub("independent", pair_cases, check_pairs, 240, 4000,
        "600 to 2400 particles leave one cell and take a second step: joint frequencies of the moves of neighbouring particles, of "
        "particles of the two halves, of every other particle and of the two moves of one particle against the product of the "
        "weights; non-trivial if two or more destinations"),
    Sub("first-move", first_cases, check_first, 1600, 16000,
        "300-1000 particles at one interior cell of a random domain take one step; chi-square against the "
        "weights at level 1e-9, no move without weight, steepest descent only to a best neighbour; "
        "non-trivial if two or more destinations are possible"),
    Sub("every-visit", visit_cases, check_visits, 480, 6000,
        "6-20 particles walk 60-120 steps in a closed basin; moves out of every cell, in the first and the "
        "second half of the run, tested as above; non-trivial if two or more cells with several "
        "destinations were left at least 50 times"),
    Sub("rare", rare_cases, check_rare, 120, 2500,
        "6000 particles leave one cell some of whose neighbours are up to 128 times less likely than others, "
        "weights scaled up and down; non-trivial if a destination has a chance below 2% and is expected 25 times"),
    Sub("remote", remote_cases, check_remote, 32, 500,
        "60000 particles leave one cell some of whose neighbours have chances between one in a hundred and one in several thousand; "
        "non-trivial if a chance is below one in a thousand"),
    Sub("ties", tie_cases, check_first, 400, 4000,
        "steepest descent out of a cell with a chosen set of equally good neighbours; non-trivial if "
        "two or more"),
]
ASSUMPTIONS = ["rejection level 1e-9 per chi-square test, applied to fixed generated samples"]
