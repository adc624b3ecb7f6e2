"""C13 particles do not influence each other."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure
from pbt.props.c05 import PMIN, chi_p

TECHNIQUE = "property-based testing (Hypothesis): metamorphic, a group of particles against each particle alone"


@st.composite
def cases(draw):
    d = draw(gen.domains(lo=5, hi=12, sd=True, diff=0.0, tracked=True, roi=True))
    L, W = d["L"], d["W"]
    # break the ties
    a, b, c = draw(gen.blob(L * W)), draw(gen.blob(L * W)), draw(gen.blob(L * W))
    for i in range(L):
        for j in range(W):
            k = i * W + j
            if d["depth"][i][j] > 0.2:
                d["depth"][i][j] += (a[k] + 1) / 3001.0
            d["stage"][i][j] += (b[k] + 3) / 2003.0
            d["qx"][i][j] += (c[k] - 127) / 1009.0
            d["qy"][i][j] += (a[k] - 127) / 1013.0
    d["seeds"] = gen.seeds_for(d, draw(gen.byte_pairs(1, 7)), border=draw(st.integers(0, 3)) == 3)
    ops = draw(sim.op_lists(1, 4, 12, 30))
    if draw(st.booleans()):
        ops.insert(draw(st.integers(0, len(ops))), ["add", gen.seeds_for(d, draw(gen.byte_pairs(1, 3)))])
    d["ops"] = ops
    d["order"] = draw(st.permutations(list(range(len(d["seeds"])))))
    d["rng"] = draw(gen.rng_seed)
    return d


def go(P, seeds, ops, t0=None):
    """Histories after routing the group through ops; added particles come last."""
    P.clear_walk_data()
    if seeds:
        P.generate_particles(len(seeds), [s[0] for s in seeds], [s[1] for s in seeds], method="exact")
    for op in ops:
        if op[0] == "add":
            P.generate_particles(len(op[1]), [s[0] for s in op[1]], [s[1] for s in op[1]], method="exact")
        else:
            sim.run_op(P, op)
    return ref.snap(P.walk_data)


def hist(w, p):
    return {f: w[f][p] for f in w}


def tie_at(R, c):
    """Could the move out of cell c be a matter of chance (or of rounding)?"""
    i, j = c
    if R.near_edge(i, j) or R.border(i, j):
        return False
    wt, dead, doubtful = R.weights(i, j)
    o = sorted((x for k, x in enumerate(wt) if k != 4), reverse=True)
    return doubtful or (o[0] > 0 and o[1] > o[0] * (1 - 1e-9)) or (wt[4] > 0 and abs(wt[4] - o[0]) < 1e-12)


def until_tie(R, h):
    """Entries up to and including the first cell the next move out of which is a draw."""
    for k, c in enumerate(zip(h["xinds"], h["yinds"])):
        if tie_at(R, c):
            return k + 1
    return None


def compare(R, a, b, what):
    """Two histories of one particle agree (up to the first tie); returns True if compared in full."""
    n = until_tie(R, a)
    for f in a:
        ensure(f in b, "%s: field %r missing", what, f)
        x, y = (a[f], b[f]) if n is None else (a[f][:n], b[f][:n])
        ensure(len(x) == len(y) and all(ref.same(s, t) for s, t in zip(x, y)),
               "%s: %r is %r against %r", what, f, y, x)
    return n is None


def check(case, ctx):
    R = ref.RefDomain(case)
    np.random.seed(case["rng"])
    P = gen.make_particles(case)
    Q = gen.make_particles(case)
    seeds, ops = case["seeds"], case["ops"]
    w = go(P, seeds, ops)
    later = next((k for k, o in enumerate(ops) if o[0] == "add"), None)
    full = moved = 0
    alone = {}

    def solo(s, rest):
        key = (tuple(s), len(rest))
        if key not in alone:
            alone[key] = hist(go(Q, [s], [o for o in rest if o[0] != "add"]), 0)
        return alone[key]

    for p, s in enumerate(seeds):
        full += compare(R, solo(s, ops), hist(w, p), "particle %d seeded at %r, alone against in a group of %d" % (
            p, s, len(seeds)))
        moved += len(w["xinds"][p]) > 1
    if later is not None:
        for k, s in enumerate(ops[later][1]):
            p = len(seeds) + k
            full += compare(R, solo(s, ops[later:]), hist(w, p),
                            "particle %d added later at %r, alone against in the group" % (p, s))
        ctx.label("added later")
    # another order of seeding
    w2 = go(Q, [seeds[k] for k in case["order"]], ops)
    for p, k in enumerate(case["order"]):
        compare(R, hist(w, k), hist(w2, p), "particle seeded at %r, in place %d against in place %d" % (
            seeds[k], k, p))
    # target-time path and step-by-step path are the same road
    n = max(len(x) for x in w["xinds"]) + 3
    w3 = go(Q, seeds, [["step", n]])
    for p in range(len(seeds)):
        a, b = hist(w, p), hist(w3, p)
        m = min(len(a["xinds"]), len(b["xinds"]))
        cut = until_tie(R, a)
        m = m if cut is None else min(m, cut)
        for f in a:
            ensure(all(ref.same(x, y) for x, y in zip(a[f][:m], b[f][:m])),
                   "particle %d: %r with the given operations %r, step by step %r", p, f, a[f][:m], b[f][:m])
    if any(R.near_edge(w["xinds"][p][-1], w["yinds"][p][-1]) for p in range(len(seeds))):
        ctx.label("some stopped at an edge")
    ctx.label("no ties" if full == len(w["xinds"]) else "ties met")
    ctx.nontrivial(moved >= 2 and len(seeds) >= 2)


@st.composite
def draw_cases(draw):
    m = draw(st.sampled_from([1, 1, 2, 3]))
    c = dict(L=9, W=draw(st.sampled_from([9, 10])), dx=draw(st.sampled_from([1.0, 30.0])),
             theta=draw(st.sampled_from([1.0, 0.0])), gamma=draw(st.sampled_from([0.05, 0.0])),
             diff=draw(st.sampled_from([0.2, 1.0])), sd=False, n=draw(st.sampled_from([600, 1000])),
             cells=[[3, 3], [5, 4], [4, 6]][:m], mode=draw(st.sampled_from(["step", "target"])),
             same=draw(st.booleans()), rng=draw(gen.rng_seed), vars=draw(st.sampled_from([None, ["depth", "u"]])))
    ux, uy = draw(st.sampled_from([(1.0, 0.3), (-0.4, 1.0), (0.7, -0.7), (1.0, 0.0)]))
    L, W = c["L"], c["W"]
    c["qx"], c["qy"] = [[ux] * W] * L, [[uy] * W] * L
    c["depth"], c["stage"] = [[1.0] * W] * L, [[0.0] * W] * L
    c["cell_type"] = [[0] * W] * L
    return c


def check_draws(case, ctx):
    """Particles in the same cell (and the successive steps of one) make their own draws."""
    n, m = case["n"], len(case["cells"])
    P = gen.make_particles(case)
    xs, ys = [c[0] for c in case["cells"]], [c[1] for c in case["cells"]]
    P.generate_particles(n, xs, ys, method="exact")
    np.random.seed(case["rng"])
    pr = ref.normalise(P.weight[4, 4])[0]
    for _ in range(2):
        w = P.run_iteration() if case["mode"] == "step" else P.run_iteration(
            target_time=1e6 * case["dx"], max_iter=1)
    ref.check_walk(w, case["vars"] or [], n)
    moves, noise = [], []
    for p in range(n):
        h = ref.path(w, p)
        moves.append([(b[0] - a[0] + 1) * 3 + b[1] - a[1] + 1 for a, b in zip(h, h[1:])])
        ensure(len(h) == 3, "particle %d made %d moves in 2 iterations", p, len(h) - 1)
        t = w["travel_times"][p]
        noise.append([t[1] - t[0], t[2] - t[1]])
    mid = {}
    for p in range(n):       # the time of one kind of move scatters around its own mean
        for s in (0, 1):
            mid.setdefault(moves[p][s], []).append(noise[p][s])
    mid = {k: (min(v) + max(v)) / 2.0 for k, v in mid.items() if len(v) > 100 and min(v) > 0}
    ks = [k for k in range(9) if pr[k] > 0]

    def pairs(what, first, second):
        """Are the moves of the given pairs of (particle, step) independent, and so the noise?"""
        cnt, sign = {}, [[0, 0], [0, 0]]
        for (p, s), (q, r) in zip(first, second):
            a, b = moves[p][s], moves[q][r]
            cnt[a, b] = cnt.get((a, b), 0) + 1
            if a in mid and b in mid:
                sign[int(noise[p][s] > mid[a])][int(noise[q][r] > mid[b])] += 1
        tot = sum(cnt.values())
        pv = chi_p([cnt.get((a, b), 0) for a in ks for b in ks], [pr[a] * pr[b] for a in ks for b in ks])
        eq = sum(v for (a, b), v in cnt.items() if a == b)
        ensure(pv > PMIN, "%s: the moves are not independent (the same in %d of %d pairs, expected about %.0f; p=%.2g)", what,
               eq, tot, tot * float((np.array(pr) ** 2).sum()), pv)
        sn = sum(map(sum, sign))
        if sn > 100:
            pv = chi_p([sign[0][0] + sign[1][1], sign[0][1] + sign[1][0]], [0.5, 0.5])
            ensure(pv > PMIN, "%s: the time noise is not independent: %s (p=%.2g)", what, sign, pv)
            ctx.label("noise compared")

    for s in (0, 1):
        for lag in {1, m}:
            ev = [p for p in range(n - lag) if p // lag % 2 == 0]
            pairs("particles %d places apart, step %d" % (lag, s + 1), [(p, s) for p in ev], [(p + lag, s) for p in ev])
        half = n // (2 * m) * m
        pairs("first and second half, step %d" % (s + 1), [(p, s) for p in range(half)], [(p + half, s) for p in range(half)])
    pairs("successive steps", [(p, 0) for p in range(n)], [(p, 1) for p in range(n)])
    pairs("step of one and next step of the next", [(p, 0) for p in range(n - 1)], [(p + 1, 1) for p in range(n - 1)])
    ctx.nontrivial(len(ks) > 1)



def check_bulk(case, ctx):
    rs = np.random.RandomState(case["bulk_seed"])
    case["order"] = [int(k) for k in rs.permutation(len(case["seeds"]))]
    if rs.randint(2):
        case["ops"].insert(rs.randint(len(case["ops"]) + 1), ["add", case["seeds"][:3]])
    check(case, ctx)


SUBS = [Sub("group", cases, check, 2500, 40000,
            "1-7 particles (and later additions), steepest descent without diffusion on fields with perturbed values, "
            "steps and target times; each against itself alone, in another order, and step by step; non-trivial if two "
            "particles moved"),
        Sub("draws", draw_cases, check_draws, 48, 800, "600-1000 particles in 1-3 cells of a uniform random-walk field with diffusion, two "
            "steps, with and without a target time: the joint frequencies of the moves of two particles (and of two steps) and the signs "
            "of their time noise factorise; non-trivial if there is more than one destination"),
        sim.bulk(check_bulk, sd=True, diff=0.0, ns=(5, 300, 25, 60, 12, 130), tracked=True)]
