"""C11 seeding creates exactly the requested particles at the requested places."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure, refused
from pbt.props.c05 import chi_p, PMIN

FORMS = ["list", "tuple", "array", "int32", "float", "2d", "3d", "T"]


def loc_list(v, form):
    """The same locations (in row order) in one of the accepted forms."""
    n = len(v)
    if form == "list":
        return list(v)
    if form == "tuple":
        return tuple(v)
    if form == "array":
        return np.array(v)
    if form == "int32":
        return np.array(v, dtype="int32")
    if form == "float":
        return [float(x) for x in v]
    if form == "2d":
        return np.array(v).reshape((2, n // 2) if n % 2 == 0 else (n, 1))
    if form == "3d":
        return np.array(v).reshape((1, n, 1) if n % 4 else (2, n // 4, 2))
    if form == "T":     # not contiguous in memory: row order is that of the array as seen
        return np.array(v).reshape((2, n // 2) if n % 2 == 0 else (1, n)).copy(order="F")
    raise AssertionError(form)


@st.composite
def cases(draw):
    d = draw(gen.domains(hi=9, tracked=True, roi=True))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["gen", "gen", "gen", "step", "bad"]))
        if k == "gen":
            n = draw(st.integers(0, 23))
            pairs = draw(gen.byte_pairs(1, 8))
            ops.append(["gen", draw(st.sampled_from(["int", "float", "str", "np"])), n, gen.seeds_for(d, pairs),
                        draw(st.sampled_from(FORMS)), draw(st.sampled_from(FORMS)),
                        draw(st.sampled_from(["exact", "exact", "random"])),
                        draw(st.sampled_from([0, 0, 0.0, 3.5, 1000, 2000000, 16777217.5, -2.0, -10 ** 9, True]))])
        elif k == "step":
            ops.append(["step", draw(st.integers(1, 3))])
        else:
            ops.append(["bad", draw(st.integers(0, 9))])
    d["ops"] = ops
    d["rng"] = draw(gen.rng_seed)
    d["same"] = draw(st.booleans())      # one pair of lists that is filled anew
    return d


BAD = [
    ("a count that is no number", TypeError, lambda P: P.generate_particles("many", [1], [1])),
    ("no count", TypeError, lambda P: P.generate_particles(None, [1], [1])),
    ("a list as count", TypeError, lambda P: P.generate_particles([5], [1], [1])),
    ("a row list that is a number", TypeError, lambda P: P.generate_particles(2, 1, [1])),
    ("a column list that is a number", TypeError, lambda P: P.generate_particles(2, [1], 1)),
    ("a row list of words", TypeError, lambda P: P.generate_particles(2, ["a", "b"], [1, 1])),
    ("a column list of None", TypeError, lambda P: P.generate_particles(2, [1, 1], [None, 1], method="exact")),
    ("a seed time that is a word", TypeError, lambda P: P.generate_particles(2, [1], [1], seed_time="0")),
    ("a method that is a number", TypeError, lambda P: P.generate_particles(2, [1], [1], method=3)),
    ("an unknown method", ValueError, lambda P: P.generate_particles(2, [1], [1], method="EXACT")),
]


def check(case, ctx):
    P = gen.make_particles(case)
    np.random.seed(case["rng"])
    fields = list(case.get("vars") or [])
    if case.get("roi") is not None and "roi_flag" not in fields:
        fields.append("roi_flag")
    held = None
    added = 0
    own = [None, None]
    for op in case["ops"]:
        if op[0] == "gen":
            kind, n, seeds, fx, fy, method, t0 = op[1:]
            # most cases: distinct lengths for rows and columns in 'random'
            xs = [s[0] for s in seeds]
            ys = [s[1] for s in seeds]
            if method == "random" and len(ys) > 2:
                ys = ys[:-1]
            N = dict(int=n, float=float(n), str=str(n), np=np.int64(n))[kind]
            lx, ly = loc_list(xs, fx), loc_list(ys, fy)
            if case.get("same"):
                own = [gen.pour(own[0], lx), gen.pour(own[1], ly)]
                lx, ly = own
            cx, cy = repr(lx), repr(ly)
            P.generate_particles(N, lx, ly, seed_time=t0, method=method)
            ensure(repr(lx) == cx and repr(ly) == cy, "the seed lists were changed: %s, %s", lx, ly)
            w = P.walk_data
            ref.check_walk(w, fields, (len(held["xinds"]) if held else 0) + n, "after seeding %r" % (op,))
            k0 = len(held["xinds"]) if held else 0
            for k in range(n):
                p = k0 + k
                x, y = w["xinds"][p], w["yinds"][p]
                ensure(len(x) == 1 and w["travel_times"][p] == [t0], "new particle %d starts as %r %r %r", k, x, y,
                       w["travel_times"][p])
                if method == "exact":
                    m = k % len(xs)
                    ensure((x[0], y[0]) == (xs[m], ys[m]), "%d particles on %r: particle %d sits at %r, expected %r",
                           n, seeds, k, (x[0], y[0]), (xs[m], ys[m]))
                else:
                    ensure(x[0] in xs and y[0] in ys, "random particle %d sits at %r, lists %r and %r", k,
                           (x[0], y[0]), xs, ys)
                ensure(isinstance(ref.plain(x[0]), int) and isinstance(ref.plain(y[0]), int), "index %r", (x, y))
            added += n
            ctx.label(method)
            ctx.label("form " + fx)
        elif op[0] == "step":
            if held is None:
                continue
            for _ in range(op[1]):
                P.run_iteration()
            held = None
        else:
            what, exc, fn = BAD[op[1]]
            before = None if P.walk_data is None else ref.snap(P.walk_data)
            n0 = P.Np_tracer
            refused(lambda: fn(P), (exc,), "seeding with " + what)
            after = None if P.walk_data is None else ref.snap(P.walk_data)
            ensure(before == after or (before and ref.diff_walk(before, after) is None),
                   "seeding with %s was refused but changed the particles", what)
            ensure(P.Np_tracer == n0, "seeding with %s was refused but changed the particle count", what)
            ctx.label("refused")
            continue
        s = ref.snap(P.walk_data)
        if held is not None:
            for f in held:
                ensure(all(len(a) == len(b) and all(ref.same(x, y) for x, y in zip(a, b))
                           for a, b in zip(held[f], s[f])), "seeding changed %r of earlier particles", f)
        held = s
    ctx.nontrivial(added > 0)


@st.composite
def randoms(draw):
    L, W = draw(st.integers(4, 12)), draw(st.integers(4, 12))
    xs = draw(st.lists(st.integers(0, L - 1), min_size=1, max_size=8))
    ys = draw(st.lists(st.integers(0, W - 1), min_size=1, max_size=8))
    return dict(L=L, W=W, xs=xs, ys=ys, np=draw(st.sampled_from([400, 800])), rng=draw(gen.rng_seed),
                form=draw(st.sampled_from(FORMS)), extra=draw(st.booleans()))


def check_random(case, ctx):
    L, W, xs, ys, n = case["L"], case["W"], case["xs"], case["ys"], case["np"]
    one = [[1.0] * W for _ in range(L)]
    P = gen.make_particles(dict(L=L, W=W, dx=1.0, depth=one, stage=one, qx=one, qy=one))
    np.random.seed(case["rng"])
    if case["extra"]:
        P.generate_particles(3, xs, ys)
    kw = {} if case["rng"] % 2 else dict(method="random")      # it is the default
    P.generate_particles(n, loc_list(xs, case["form"]), loc_list(ys, case["form"]), **kw)
    px = [v[0] for v in P.walk_data["xinds"]][-n:]
    py = [v[0] for v in P.walk_data["yinds"]][-n:]
    ensure(len(P.walk_data["xinds"]) == n + 3 * case["extra"], "%d particles", len(P.walk_data["xinds"]))
    for name, v, lst in (("row", px, xs), ("column", py, ys)):
        vals = sorted(set(lst))
        ensure(set(v) <= set(vals), "%ss %r outside the list %r", name, sorted(set(v)), lst)
        pr = [lst.count(x) / len(lst) for x in vals]
        q = chi_p([v.count(x) for x in vals], pr)
        ensure(q > PMIN, "%ss %r drawn %r times out of %d, expected shares %r (p=%.2g)", name, vals,
               [v.count(x) for x in vals], n, pr, q)
    cells, pr = [], []
    for x in sorted(set(xs)):
        for y in sorted(set(ys)):
            cells.append((x, y))
            pr.append(xs.count(x) * ys.count(y) / len(xs) / len(ys))
    pairs = list(zip(px, py))
    q = chi_p([pairs.count(c) for c in cells], pr)
    ensure(q > PMIN, "rows %r and columns %r are not drawn independently: counts %r (p=%.2g)", xs, ys,
           {str(c): pairs.count(c) for c in cells}, q)
    # nothing carries over from one particle to the next
    if len(set(xs)) > 1:
        vals = sorted(set(xs))
        seq = list(zip(px[:-1:2], px[1::2]))
        cc = [(a, b) for a in vals for b in vals]
        q = chi_p([seq.count(c) for c in cc], [xs.count(a) * xs.count(b) / len(xs) ** 2 for a, b in cc])
        ensure(q > PMIN, "rows of successive particles are not independent (p=%.2g)", q)
    ctx.label("lists %d x %d" % (min(len(set(xs)), 4), min(len(set(ys)), 4)))
    ctx.label("repeats" if len(set(xs)) < len(xs) else "distinct")
    ctx.nontrivial(len(set(xs)) > 1 and len(set(ys)) > 1)


SUBS = [
    Sub("placement", cases, check, 4000, 60000,
        "sequences of seeding calls (counts as int/float/str, lists, tuples, 1-3 dimensional arrays, seed times), "
        "steps and refused calls; non-trivial if a particle was added"),
    Sub("random", randoms, check_random, 500, 6000,
        "400 or 800 randomly placed particles, chi-square of rows, columns, pairs and successive particles at 1e-9; "
        "non-trivial if both lists have two different entries"),
]


@st.composite
def bulk_cases(draw):
    return dict(L=draw(st.sampled_from([60, 9, 300])), W=draw(st.sampled_from([45, 12, 200])), lists=draw(st.sampled_from([2000, 30, 1, 300, 700])),
                calls=[[draw(st.sampled_from(["exact", "random", "exact"])), draw(st.sampled_from([600, 1, 2500, 150, 5000, 40]))]
                       for _ in range(draw(st.integers(1, 3)))], form=draw(st.sampled_from(["list", "array", "tuple"])),
                rng=draw(gen.rng_seed))


def check_bulk(case, ctx):
    """Thousands of particles, long lists of places."""
    L, W = case["L"], case["W"]
    rs = np.random.RandomState(case["rng"])
    one = np.ones((L, W))
    P = gen.make_particles(dict(L=L, W=W, dx=1.0, depth=one, stage=one, qx=one, qy=one))
    want = []
    np.random.seed(case["rng"] // 2)
    for method, n in case["calls"]:
        xs = [int(v) for v in rs.randint(0, L, case["lists"])]
        ys = [int(v) for v in rs.randint(0, W, case["lists"])]
        P.generate_particles(n, loc_list(xs, case["form"]), loc_list(ys, case["form"]), method=method)
        want += [(xs[k % len(xs)], ys[k % len(ys)]) if method == "exact" else (set(xs), set(ys)) for k in range(n)]
        w = P.walk_data
        ref.check_walk(w, [], len(want), "after seeding %d particles" % n)
    for p, c in enumerate(want):
        x, y = ref.plain(w["xinds"][p][0]), ref.plain(w["yinds"][p][0])
        ensure(len(w["xinds"][p]) == 1 and w["travel_times"][p] == [0], "particle %d starts as %r %r %r", p, w["xinds"][p],
               w["yinds"][p], w["travel_times"][p])
        if isinstance(c[0], set):
            ensure(x in c[0] and y in c[1], "random particle %d sits at %r, which is not listed", p, (x, y))
        else:
            ensure((x, y) == c, "calls %r: particle %d sits at %r, expected %r", case["calls"], p, (x, y), c)
    ctx.nontrivial(case["lists"] > 1)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 64, 1000, "up to three calls for 1 to 5000 particles with lists of 1 to 2000 places, "
                "described by sizes and a seed; non-trivial if there is more than one place"))
