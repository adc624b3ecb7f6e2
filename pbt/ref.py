"""Independent reference model of the routing rules (plain Python scalars), and walk-data helpers."""
import math

import numpy as np

from .core import Violation

SQ2 = math.sqrt(2.0)
NB = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 0), (0, 1), (1, -1), (1, 0), (1, 1)]
DIST = [SQ2, 1.0, SQ2, 1.0, 1.0, 1.0, SQ2, 1.0, SQ2]


class RefDomain:
    """Depth, stage, discharge (row and column component), velocity, cell type of a case."""

    def __init__(self, d):
        self.L, self.W = d["L"], d["W"]
        L, W = self.L, self.W
        dep = None if d.get("depth") is None else np.array(d["depth"], float)
        stg = None if d.get("stage") is None else np.array(d["stage"], float)
        top = None if d.get("topography") is None else np.array(d["topography"], float)
        if dep is not None:
            dep = np.where(np.isnan(dep), 0.0, dep)
        else:
            dep = stg - top
            dep = np.where(np.isnan(dep) | (dep < 0), 0.0, dep)
        if stg is None:
            stg = top + dep
        stg = np.where(dep == 0, np.nan, stg)
        self.depth, self.stage = dep, stg
        if d.get("qx") is not None and d.get("qy") is not None:
            a = np.nan_to_num(np.array(d["qx"], float), nan=0.0)
            b = np.nan_to_num(np.array(d["qy"], float), nan=0.0)
            if d.get("model") == "DeltaRCM":
                self.qrow, self.qcol = a, b
            else:
                self.qrow, self.qcol = -b, a
            f = dep / (dep ** 2 + 1e-8)
            self.urow, self.ucol = self.qrow * f, self.qcol * f
        else:
            a = np.nan_to_num(np.array(d["u"], float), nan=0.0)
            b = np.nan_to_num(np.array(d["v"], float), nan=0.0)
            if d.get("model") == "DeltaRCM":
                self.urow, self.ucol = a, b
            else:
                self.urow, self.ucol = -b, a
            self.qrow, self.qcol = self.urow * dep, self.ucol * dep
        self.speed = np.sqrt(self.urow ** 2 + self.ucol ** 2)
        self.theta = 1.0 if d.get("theta") is None else d["theta"]
        self.gamma = 0.05 if d.get("gamma") is None else d["gamma"]
        self.dry = 0.1 if d.get("dry") is None else d["dry"]
        self.sd = d.get("sd") is True
        diff = d.get("diff")
        if diff is None:
            diff = 0.0 if self.sd else 0.2
        self.diff = max(0.0, diff)
        self.dx = d["dx"]
        if d.get("cell_type") is not None:
            self.ct = np.array(d["cell_type"], int)
        else:
            ct = np.where(dep < self.dry, 2, 0)
            ct[0, :] = ct[-1, :] = ct[:, 0] = ct[:, -1] = -1
            self.ct = ct
        self._w = {}

    def border(self, i, j):
        return i in (0, self.L - 1) or j in (0, self.W - 1)

    def near_edge(self, i, j):
        """An edge cell is in the 3x3 neighbourhood (clipped to the grid)."""
        for di, dj in NB:
            a, b = i + di, j + dj
            if 0 <= a < self.L and 0 <= b < self.W and self.ct[a, b] == -1:
                return True
        return False

    def wet(self, i, j):
        return self.depth[i, j] > self.dry and self.ct[i, j] != 2

    def weights(self, i, j):
        """(nine weights normalised to sum 1 or all zero, dead_end, doubtful)."""
        key = (i, j)
        if key in self._w:
            return self._w[key]
        if self.border(i, j):
            r = ([0.0] * 9, False, False)
            self._w[key] = r
            return r
        s0 = float(self.stage[i, j])
        qr, qc = float(self.qrow[i, j]), float(self.qcol[i, j])
        sfc, inn, ok = [], [], []
        bad = []      # water surface unknown: no destination
        doubtful = False
        for k, (di, dj) in enumerate(NB):
            a, b = i + di, j + dj
            valid = self.depth[a, b] > self.dry and self.ct[a, b] != 2
            ok.append(bool(valid))
            ds = (s0 - float(self.stage[a, b])) / DIST[k]
            bad.append(math.isnan(ds))
            proj = (qr * di + qc * dj) / DIST[k] / DIST[k] if k != 4 else 0.0
            if proj != 0 and abs(proj) < 1e-13 * (abs(qr) + abs(qc)):
                doubtful = True
            sfc.append(ds if (valid and ds > 0) else 0.0)
            inn.append(proj if (valid and proj > 0) else 0.0)
        ts, ti = sum(sfc), sum(inn)
        w = []
        for k, (di, dj) in enumerate(NB):
            a, b = i + di, j + dj
            if not ok[k] or bad[k]:
                w.append(0.0)
                continue
            x = 0.0
            if ts > 0:
                x += self.gamma * sfc[k] / ts
            if ti > 0:
                x += (1.0 - self.gamma) * inn[k] / ti
            w.append(float(self.depth[a, b]) ** self.theta * x)
        tot = sum(w)
        dead = False
        if not tot > 0:
            dead = True
            m = max(float(self.depth[i + di, j + dj]) for di, dj in NB)
            w = [1.0 if float(self.depth[i + di, j + dj]) == m else 0.0 for di, dj in NB]
            tot = sum(w)
        r = ([x / tot for x in w], dead, doubtful)
        self._w[key] = r
        return r

    def travel(self, i, j, a, b):
        """(expected time without diffusion, tolerance) of the step (i,j)->(a,b)."""
        k = NB.index((a - i, b - j))
        dist = DIST[k] * self.dx
        so = max(float(self.speed[i, j]), 1e-8)
        sn = max(float(self.speed[a, b]), 1e-8)
        ur, uc = float(self.urow[i, j]), float(self.ucol[i, j])
        scale = 0.5 * dist * (1.0 / so + 1.0 / sn)
        if so < 1e-6:
            # (almost) stagnant origin: the direction of flow is not meaningful
            return None, scale
        c = ((a - i) * ur + (b - j) * uc) / (DIST[k] * so)
        return scale * max(0.0, c), scale * (6e-8 / so + 1e-9)


def normalise(w):
    """Nine raw weights of the program -> probabilities (NaN counts as 0)."""
    w = np.nan_to_num(np.asarray(w, float), nan=0.0)
    t = w.sum()
    return (w / t if t > 0 else np.zeros(9)), t


BASE = ["xinds", "yinds", "travel_times"]


def check_walk(walk, fields=(), npart=None, what="walk data"):
    """Structural validity of returned walk data; raises Violation."""
    if not isinstance(walk, dict):
        raise Violation("%s is %r, not a dict" % (what, type(walk)))
    for f in BASE + list(fields):
        if f not in walk:
            raise Violation("%s lacks %r (has %s)" % (what, f, sorted(walk)))
    n = len(walk["xinds"])
    if npart is not None and n != npart:
        raise Violation("%s has %d particles, expected %d" % (what, n, npart))
    for f in walk:
        if len(walk[f]) != n:
            raise Violation("%s: %d entries for %r, %d for 'xinds'" % (what, len(walk[f]), f, n))
    for p in range(n):
        m = len(walk["xinds"][p])
        if m == 0:
            raise Violation("%s: particle %d has an empty history" % (what, p))
        for f in walk:
            if len(walk[f][p]) != m:
                raise Violation("%s: particle %d has %d %r and %d 'xinds'" % (
                    what, p, len(walk[f][p]), f, m))
    return n


def path(walk, p):
    return list(zip(walk["xinds"][p], walk["yinds"][p]))


def snap(walk):
    """Plain, independent copy of walk data."""
    return {k: [list(v) for v in walk[k]] for k in walk}


def plain(x):
    """numpy scalar -> python number"""
    return x.item() if hasattr(x, "item") else x


def same(a, b):
    """Equal numbers, NaN equal to NaN, None equal to None."""
    a, b = plain(a), plain(b)
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def close(a, b, rtol=1e-9, atol=0.0):
    if a is None or b is None:
        return a is b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def diff_walk(a, b, exact=True, rtol=1e-9):
    """None if equal, else a description of the first difference."""
    if sorted(a) != sorted(b):
        return "fields %s against %s" % (sorted(a), sorted(b))
    for k in sorted(a):
        if len(a[k]) != len(b[k]):
            return "%r: %d particles against %d" % (k, len(a[k]), len(b[k]))
        for p, (x, y) in enumerate(zip(a[k], b[k])):
            if len(x) != len(y):
                return "%r of particle %d: %d entries against %d" % (k, p, len(x), len(y))
            for i, (s, t) in enumerate(zip(x, y)):
                if exact:
                    if not same(s, t):
                        return "%r of particle %d, entry %d: %r against %r" % (k, p, i, s, t)
                elif not close(plain(s), plain(t), rtol):
                    return "%r of particle %d, entry %d: %r against %r" % (k, p, i, s, t)
    return None
