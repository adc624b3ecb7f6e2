"""C26 spatial exposure analysis assigns every particle to its start chunk once."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, ensure, fail, known
from pbt.props import c19

TECHNIQUE = "property-based testing (Hypothesis): reference block partition and exposure sums"


@st.composite
def cases(draw):
    c = draw(gen.walks(lo=3, hi=11, max_p=10, max_len=10))
    L, W = c["L"], c["W"]
    c["res"] = draw(st.integers(1, min(L, W)))
    if c["res"] == 1 and draw(st.integers(0, 2)):
        c["res"] = min(2, L, W)
    b = draw(gen.blob(L * W))
    style = draw(st.sampled_from(["noise", "dense", "half", "block", "all"]))
    c["ct"] = [[int(dict(noise=b[i * W + j] % 2, dense=b[i * W + j] % 5 > 0, half=j < W // 2,
                         block=(i // 2 + j // 2) % 2, all=1)[style]) for j in range(W)] for i in range(L)]
    if draw(st.booleans()):   # some blocks without region
        m = draw(gen.blob(L * W))
        k = c["res"]
        for i in range(L):
            for j in range(W):
                if m[((i // k) * (W // k + 1) + j // k) % (L * W)] % 3 == 0:
                    c["ct"][i][j] = 0
    m = draw(gen.blob(L * W))     # land, ocean and edge: no region either
    other = draw(st.sampled_from([[0], [0, 2], [0, 2, -1, 2], [2]]))
    for i in range(L):
        for j in range(W):
            if c["ct"][i][j] == 0:
                c["ct"][i][j] = other[m[i * W + j] % len(other)]
    if draw(st.booleans()):   # no start on the first row or column of a block
        for p in range(len(c["walk"]["xinds"])):
            for f, n in (("xinds", L), ("yinds", W)):
                v = c["walk"][f][p][0]
                if v % c["res"] == 0 and v and c["res"] > 1:
                    c["walk"][f][p][0] = v + 1 if v + 1 < n else v - 1
    c["dtype"] = draw(st.sampled_from(["int64", "int32", "int8", "float64", "float32"]))
    return c


def blocks(n, k):
    m = n // k
    return [(r * k, n if r == m - 1 else (r + 1) * k) for r in range(m)]


def member(v, lo, hi, inclusive):
    return lo <= v < hi or (inclusive and v == hi)


def check(case, ctx):
    import dorado.spatial as sp
    walk = case["walk"]
    L, W, k = case["L"], case["W"], case["res"]
    ct, el = case.get("same") or (gen.arr(case["ct"], case["dtype"], len(case["walk"]["xinds"])),
                                  np.arange(L * W, dtype=float).reshape(L, W))
    starts = [(walk["xinds"][p][0], walk["yinds"][p][0]) for p in range(len(walk["xinds"]))]
    rb, cb = blocks(L, k), blocks(W, k)
    edge = any(v and v % k == 0 and v < (n // k) * k for s in starts for v, n in zip(s, (L, W)))
    for name in ("systemwide", "localized"):
        keep, ct0, el0 = copy.deepcopy(walk), ct.copy(), el.copy()
        got = getattr(sp, name)(walk, el, ct, k)
        ensure(walk == keep and np.array_equal(ct, ct0) and np.array_equal(el, el0), "%s changed its input", name)
        ensure(isinstance(got, list) and len(got) == len(rb) * len(cb), "%s: %d entries for %d x %d blocks", name,
               len(got), len(rb), len(cb))
        why = {}
        for inc in ((False, False), (False, True), (True, False), (True, True)):
            msg = None
            i = 0
            for r0, r1 in rb:
                for c0, c1 in cb:
                    g = got[i]
                    i += 1
                    if not (ct[r0:r1, c0:c1] == 1).any():
                        if isinstance(g, (list, tuple, np.ndarray)) or not g != g:
                            msg = msg or "block rows %d-%d, columns %d-%d has no region cell and gives %r" % (
                                r0, r1 - 1, c0, c1 - 1, g)
                        continue
                    who = [p for p, (x, y) in enumerate(starts)
                           if member(x, r0, r1, inc[0]) and member(y, c0, c1, inc[1])]
                    region = [[int(ct[a, b] == 1 and (name == "systemwide" or (r0 <= a < r1 and c0 <= b < c1)))
                               for b in range(W)] for a in range(L)]
                    want = c19.expected({f: [walk[f][p] for p in who] for f in ("xinds", "yinds", "travel_times")},
                                        region)
                    if not (isinstance(g, (list, tuple, np.ndarray)) and len(g) == len(want) and
                            all(c19.close(a, b, 1000.0) for a, b in zip(g, want))):
                        msg = msg or "block rows %d-%d, columns %d-%d gives %r, particles %r have %r" % (
                            r0, r1 - 1, c0, c1 - 1, g, who, want)
            if msg is None:
                break
            why[inc] = msg
        else:
            fail("%s (%d cells per block): %s", name, k, why[(False, False)])
        if inc != (False, False):
            known(ctx, "C26", "boundary-start", "%s: particles that start on the first row or column of a block are "
                  "also counted in the block before: %s", name, why[(False, False)])
    ctx.label("start on a block boundary" if edge else "no start on a block boundary")
    if L % k or W % k:
        ctx.label("left-over rows or columns")
    if len(walk) > 3:
        ctx.label("additional fields")
    ctx.nontrivial(len(rb) * len(cb) > 1 and len(starts) > 1 and bool((ct == 1).any()))


@st.composite
def grown_cases(draw):
    d = draw(cases())
    d["grow"] = list(draw(gen.blob(len(d["walk"]["xinds"]) + 2)))
    return d


def check_grown(case, ctx):
    import dorado.spatial as sp
    ct = np.array(case["ct"]).astype(case["dtype"])
    el = np.zeros((case["L"], case["W"]))

    def call(w):
        sp.systemwide(w, el, ct, case["res"])
        sp.localized(w, el, ct, case["res"])
    walk = gen.grown(case["walk"], case["grow"], call)
    if case["grow"][0] % 3 == 0:      # the region changes too
        keep = ct.copy()
        ct[...] = 1 - (ct == 1)
        call(walk)
        ct[...] = keep
    check(dict(case, walk=walk, same=(ct, el)), ctx)


SUBS = [Sub("blocks", cases, check, 2400, 40000,
            "1-10 ragged walks on rasters of 3-11 cells a side, 1 cell per block up to one block, region masks with "
            "blocks left empty, starts on and off block boundaries; non-trivial if several blocks, several particles and "
            "a region")]
SUBS.append(Sub("grown", grown_cases, check_grown, 400, 6000, "the same walk data objects after they have been analysed with "
                "shorter histories and in the opposite direction and then changed in place"))


@st.composite
def bulk_cases(draw):
    c = draw(gen.bulk_walks(total=2500, shapes=((40, 60), (30, 30), (60, 25), (25, 110)), counts=(20, 120, 5, 60, 300), long=200))
    c["res"] = draw(st.sampled_from([5, 4, 7, 10, 3, 12, 25]))
    c["cover"] = draw(st.sampled_from([0.5, 0.05, 0.9, 1.0]))
    return c


def check_bulk(case, ctx):
    rs = np.random.RandomState(case["bulk"] // 2)
    d = gen.expand_walk(case)
    k = case["res"]
    for f, n in (("xinds", case["L"]), ("yinds", case["W"])):      # no start on the first row or column of a block
        for h in d["walk"][f]:
            if h[0] and h[0] % k == 0:
                h[0] += 1 if h[0] + 1 < n else -1
    ct = np.where(rs.rand(case["L"], case["W"]) < case["cover"], 1, rs.choice([0, 2, -1], (case["L"], case["W"])))
    for _ in range(3):
        i, j = rs.randint(case["L"] // k) * k, rs.randint(case["W"] // k) * k
        ct[i:i + k, j:j + k] = 0
    check(dict(d, ct=ct.tolist(), dtype="int64"), ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 48, 800, "up to 300 particles on rasters of up to 40x60 and 25x110 with up to 200 blocks or so; "
                "non-trivial as above"))
