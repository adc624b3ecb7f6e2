"""C14 parallel routing returns complete, aligned, independent particles."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure
from pbt.props.c05 import chi_p, PMIN
from pbt.props.c13 import compare, hist

ASSUMPTIONS = ["The object handed to parallel_routing holds no particles in most cases; when it does, only counts and "
               "alignment are judged."]


def route(case, P=None):
    from dorado.parallel_routing import parallel_routing
    P = gen.make_particles(case) if P is None else P
    xs, ys = [s[0] for s in case["seeds"]], [s[1] for s in case["seeds"]]
    if case["np"] % 3 == 2:
        xs, ys = np.array(xs), np.array(ys)
    w = parallel_routing(P, case["iters"], case["np"], xs, ys, case["cores"])
    return P, w, xs, ys


def fields_of(case):
    f = list(case.get("vars") or [])
    if case.get("roi") is not None and "roi_flag" not in f:
        f.append("roi_flag")
    return f


def structure(case, P, w, xs, ys, total):
    fields = fields_of(case)
    ref.check_walk(w, fields, total, "parallel result")
    ensure(sorted(w) == sorted(set(ref.BASE + fields)), "parallel result has the fields %s, tracked are %s", sorted(w),
           fields)
    own = dict(depth=P.depth, stage=P.stage, qx=P.qx, qy=P.qy, u=P.u, v=P.v)
    L, W = case["L"], case["W"]
    for p in range(total):
        path = ref.path(w, p)
        ensure(path[0][0] in xs and path[0][1] in ys, "particle %d starts at %r, seeds are rows %r, columns %r", p,
               path[0], xs, ys)
        ensure(w["travel_times"][p][0] == 0, "particle %d starts at time %r", p, w["travel_times"][p][0])
        ensure(len(path) <= case["iters"] + 1, "particle %d has %d entries after %d iterations", p, len(path),
               case["iters"])
        for a, b in zip(path, path[1:]):
            ensure(0 <= b[0] < L and 0 <= b[1] < W and max(abs(a[0] - b[0]), abs(a[1] - b[1])) == 1,
                   "particle %d jumps from %r to %r", p, a, b)
        for f in fields:
            for k, c in enumerate(path):
                x = w[f][p][k]
                want = (1 if case["roi"][c[0]][c[1]] == 1 else 0) if f == "roi_flag" else own[f][c]
                ensure(ref.same(x, want), "particle %d entry %d at %r: %s is %r, the grid has %r", p, k, c, f, x, want)


@st.composite
def cases(draw):
    d = draw(gen.domains(lo=5, hi=11, roi=True, tracked=True))
    d["seeds"] = gen.seeds_for(d, draw(gen.byte_pairs(1, 5)))
    d["np"] = draw(st.sampled_from([1, 2, 3, 5, 8]))
    d["iters"] = draw(st.sampled_from([1, 2, 3, 6, 12]))
    d["cores"] = draw(st.sampled_from([1, 2, 2, 3, 4]))
    d["rng"] = draw(gen.rng_seed)
    d["held"] = draw(st.integers(0, 7)) == 7
    return d


def check(case, ctx):
    np.random.seed(case["rng"])
    P = gen.make_particles(case)
    if case["held"]:
        s = case["seeds"][0]
        P.generate_particles(2, [s[0]], [s[1]])
        P, w, xs, ys = route(case, P)
        n = case["cores"] * case["np"]
        ref.check_walk(w, fields_of(case), None, "parallel result")
        ensure(len(w["xinds"]) >= n, "%d particles for %d cores x %d", len(w["xinds"]), case["cores"], case["np"])
        ctx.label("held particles")
        return
    P, w, xs, ys = route(case, P)
    structure(case, P, w, xs, ys, case["cores"] * case["np"])
    ctx.label("cores=%d" % case["cores"])
    ctx.nontrivial(case["cores"] > 1 and max(len(x) for x in w["xinds"]) > 1)


@st.composite
def dets(draw):
    d = draw(gen.domains(lo=6, hi=12, sd=True, diff=0.0, roi=True, tracked=True))
    L, W = d["L"], d["W"]
    a, b, c = draw(gen.blob(L * W)), draw(gen.blob(L * W)), draw(gen.blob(L * W))
    for i in range(L):
        for j in range(W):
            k = i * W + j
            if d["depth"][i][j] > 0.2:
                d["depth"][i][j] += (a[k] + 1) / 3001.0
            d["stage"][i][j] += (b[k] + 3) / 2003.0
            d["qx"][i][j] += (c[k] - 127) / 1009.0
            d["qy"][i][j] += (a[k] - 127) / 1013.0
    d["seeds"] = gen.seeds_for(d, draw(gen.byte_pairs(1, 4)), border=False)
    d["np"] = draw(st.sampled_from([1, 2, 4]))
    d["iters"] = draw(st.sampled_from([1, 4, 9, 20]))
    d["cores"] = draw(st.sampled_from([2, 3, 4]))
    d["rng"] = draw(gen.rng_seed)
    return d


def check_det(case, ctx):
    R = ref.RefDomain(case)
    np.random.seed(case["rng"])
    P, w, xs, ys = route(case)
    structure(case, P, w, xs, ys, case["cores"] * case["np"])
    serial = {}
    full = 0
    for p in range(len(w["xinds"])):
        c = (w["xinds"][p][0], w["yinds"][p][0])
        if c not in serial:
            Q = gen.make_particles(case)
            Q.generate_particles(1, [c[0]], [c[1]])
            v = None
            for _ in range(case["iters"]):
                v = Q.run_iteration()
            serial[c] = hist(ref.snap(v), 0)
        full += compare(R, serial[c], hist(w, p), "particle %d seeded at %r, serial against parallel" % (p, c))
    ctx.label("no ties" if full == len(w["xinds"]) else "ties met")
    ctx.nontrivial(max(len(x) for x in w["xinds"]) > 2 and full > 0)


@st.composite
def indeps(draw):
    L = draw(st.integers(16, 24))
    W = draw(st.integers(16, 24))
    d = dict(L=L, W=W, dx=draw(st.sampled_from([1.0, 25.0])), theta=draw(st.sampled_from([0.0, 1.0])),
             gamma=draw(st.sampled_from([0.05, 0.5, 0.0])), diff=draw(st.sampled_from([0.2, 1.0])),
             np=draw(st.sampled_from([6, 10, 20])), iters=draw(st.sampled_from([3, 5, 8])),
             cores=draw(st.sampled_from([2, 3, 4, 5])), rng=draw(gen.rng_seed), sd=False,
             again=draw(st.booleans()), kind=draw(st.sampled_from(["field", "one"])))
    ux, uy = draw(st.sampled_from([(1.0, 0.3), (-0.4, 1.0), (0.7, 0.7), (1.0, 0.0)]))
    d["qx"] = [[ux] * W for _ in range(L)]
    d["qy"] = [[uy] * W for _ in range(L)]
    d["depth"] = [[1.0] * W for _ in range(L)]
    d["stage"] = [[0.0] * W for _ in range(L)]
    if d["kind"] == "one":
        d["seeds"] = [[L // 2, W // 2]]
    else:
        d["seeds"] = [[4 + k % (L - 8), 4 + k % (W - 8)] for k in range(24)]
    return d


def check_indep(case, ctx):
    np.random.seed(case["rng"])
    P, w, xs, ys = route(case)
    n, c = case["np"], case["cores"]
    structure(case, P, w, xs, ys, n * c)
    parts = [[hist(ref.snap(w), k * n + p) for p in range(n)] for k in range(c)]
    if case["again"]:     # another call is another draw
        P, w, xs, ys = route(case)
        parts += [[hist(ref.snap(w), k * n + p) for p in range(n)] for k in range(c)]
    seen = {}
    for k, part in enumerate(parts):
        for p, h in enumerate(part):
            # every positive step has a time factor drawn from a continuous distribution
            t = h["travel_times"]
            inc = tuple(t)
            if sum(b > a for a, b in zip(t, t[1:])) < 2:
                continue
            ensure(inc not in seen, "particle %d of worker %d and particle %d of worker %d have the same times %r", p,
                   k, *(seen.get(inc) or (0, 0)), list(inc)[:6])
            seen[inc] = (p, k)
    if case["kind"] == "field":
        starts = [[(h["xinds"][0], h["yinds"][0]) for h in part] for part in parts]
        for a in range(len(parts)):
            for b in range(a):
                ensure(starts[a] != starts[b], "workers %d and %d seeded their particles identically: %r", a, b,
                       starts[a])
    ctx.label("cores=%d" % c)
    ctx.nontrivial(len(seen) >= 4)


@st.composite
def manys(draw):
    """More workers than processors."""
    import os
    d = draw(indeps())
    cpu = os.cpu_count() or 1
    d["cores"] = draw(st.sampled_from([cpu + 1, cpu + 3, 12, 17, 9, 8, 2 * cpu + 1]))
    d["np"] = draw(st.sampled_from([2, 1, 3, 5]))
    d["iters"] = draw(st.sampled_from([5, 6, 8]))
    d["again"] = False
    d["kind"] = "one"
    return d


@st.composite
def bulks(draw):
    c = draw(sim.bulk_cases(sd=True, diff=0.0, tracked=True, targets=False, max_ops=1, ns=(5,)))
    c["np"], c["iters"] = draw(st.sampled_from([[1, 120], [400, 2], [3, 60], [1, 51], [40, 12], [2, 20], [120, 5], [1, 105]]))
    c["cores"] = draw(st.sampled_from([2, 1, 3, 4]))
    return c


def check_bulk(case, ctx):
    d = sim.expand(case)
    check_det(d, ctx)


@st.composite
def parts(draw):
    n = draw(st.integers(1, 5))
    first = draw(gen.walks(max_p=4, max_len=5))
    rest = []
    names = [f for f in first["walk"] if f not in ref.BASE]
    for _ in range(n - 1):
        w = draw(gen.walks(L=first["L"], W=first["W"], max_p=4, max_len=5, extra=False))["walk"]
        for f in names:
            w[f] = [[float(k) for k in range(len(v))] for v in w["xinds"]]
        rest.append(w)
    return dict(parts=[first["walk"]] + rest)


def check_combine(case, ctx):
    from dorado.parallel_routing import combine_result
    ps = case["parts"]
    w = combine_result([dict(p) for p in ps])
    want = {f: [h for p in ps for h in p[f]] for f in ps[0]}
    d = ref.diff_walk(want, w)
    ensure(d is None, "combining %d results: %s", len(ps), d)
    ctx.nontrivial(len(ps) > 1)


SUBS = [
    Sub("structure", cases, check, 500, 6000, "random domain, walk or steepest, 1-4 cores, 1-8 particles each; every "
        "history judged (start, length, connection, tracked values); non-trivial with several cores and a move"),
    Sub("deterministic", dets, check_det, 250, 3000, "steepest descent without diffusion, 2-4 cores, against serial runs "
        "from the same cell; non-trivial if a particle took two steps without ties"),
    Sub("independent", indeps, check_indep, 250, 3000, "random walk with diffusion, 2-5 cores, twice; no two "
        "particles may share their travel times, no two workers their start cells"),
    Sub("many", manys, check_indep, 40, 400, "the same with 8 to 17 workers and with more workers than processors"),
    Sub("bulk", bulks, check_bulk, 32, 600, "deterministic as above with 20 to 120 iterations or 40 to 400 particles per worker on "
        "large rasters, the particles judged against serial runs by cell"),
    Sub("combine", parts, check_combine, 800, 8000, "merging of 1-5 hand-made results"),
]
