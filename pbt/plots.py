"""Running the plotting code without drawing pixels (unless asked to)."""
import contextlib
import os


def shown(fig):
    """Marker sets, images, line sets and titles of a figure, as plain data."""
    import numpy as np
    from matplotlib.collections import LineCollection, PathCollection
    out = dict(markers=[], colours=[], images=[], lines=[], titles=[], curves=[], extents=[], scales=[])
    for ax in fig.get_axes():
        out["titles"].append(ax.get_title())
        for im in ax.get_images():
            out["images"].append(np.array(im.get_array(), dtype=float))
            out["scales"].append([float(v) for v in im.get_clim()] if out["images"][-1].ndim == 2 else None)
            out["extents"].append([float(v) for v in im.get_extent()])
        for ln in ax.get_lines():
            if ln.get_transform() is ax.transData:   # not the horizontal helper lines
                out["curves"].append(dict(ylabel=ax.get_ylabel(), xlabel=ax.get_xlabel(), window=[float(v) for v in
                                          ax.get_xlim() + ax.get_ylim()], step=ln.get_drawstyle(),
                                          x=[float(v) for v in ln.get_xdata()],
                                          y=[float(v) for v in ln.get_ydata()]))
        for c in ax.collections:
            if isinstance(c, PathCollection):
                out["markers"].append([[float(v) for v in row] for row in np.asarray(c.get_offsets())])
                a = c.get_array()
                out["colours"].append(None if a is None else [float(v) for v in np.ravel(a)])
            elif isinstance(c, LineCollection):
                out["lines"].append([[[float(v) for v in row] for row in np.asarray(seg)]
                                     for seg in c.get_segments()])
    return out


@contextlib.contextmanager
def figures(real=False):
    """Figures are closed at the end; savefig only creates the file unless real.

    Yields the list of saved (figure, absolute file name, what it showed at that moment)."""
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    plt.close("all")
    old_save, old_tight = Figure.savefig, Figure.tight_layout
    old_dpi = matplotlib.rcParams["savefig.dpi"]
    saved = []

    def savefig(self, fname, *a, **kw):
        fn = os.path.abspath(os.fspath(fname))
        if real:
            kw["dpi"] = 20
            old_save(self, fname, *a, **kw)
        else:
            if not os.path.splitext(fn)[1]:
                fn += "." + matplotlib.rcParams["savefig.format"]
            with open(fn, "wb") as f:
                f.write(b"figure")
        saved.append((self, fn, shown(self)))

    Figure.savefig = savefig
    if not real:
        Figure.tight_layout = lambda self, *a, **kw: None
    try:
        yield saved
    finally:
        Figure.savefig, Figure.tight_layout = old_save, old_tight
        matplotlib.rcParams["savefig.dpi"] = old_dpi
        plt.close("all")


def legible(im, scale):
    """Does the colour scale cover an image and tell its values apart?"""
    lo, hi = im.min(), im.max()
    e = 1e-6 * (abs(lo) + abs(hi))
    return scale[0] <= lo + e and scale[1] >= hi - e and (lo == hi or scale[1] - scale[0] <= 4 * (hi - lo) + e)


def in_view(curve):
    """Do the axes show a curve in full and in a readable size?"""
    w = curve["window"]
    for lo, hi, v in ((w[0], w[1], curve["x"]), (w[2], w[3], curve["y"])):
        e = 1e-6 * max(abs(min(v)), abs(max(v)))
        if lo > min(v) + e or hi < max(v) - e or (v is curve["x"] and max(v) > min(v) and hi - lo > 3 * (max(v) - min(v))):
            return False
    return True


def earlier(*names):
    """Figures and data of an earlier run, to be overwritten."""
    for fn in names:
        os.makedirs(os.path.dirname(fn) or ".", exist_ok=True)
        with open(fn, "wb") as f:
            f.write(b"earlier" * 20000)


def kept(d):
    """The files of an earlier run that are still there."""
    out = []
    for fn in tree(d):
        with open(os.path.join(d, fn), "rb") as f:
            if f.read(7) == b"earlier":
                out.append(fn)
    return out


def tree(d):
    """All files under d, relative, sorted."""
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            out.append(os.path.relpath(os.path.join(r, f), d).replace(os.sep, "/"))
    return sorted(out)


@contextlib.contextmanager
def logged(level="INFO"):
    """Messages of the package's logger, which is put back afterwards."""
    import logging
    lg = logging.getLogger("dorado")
    msgs = []

    class H(logging.Handler):
        def emit(self, r):
            msgs.append(r.getMessage())
    lv, hs, pr = lg.level, list(lg.handlers), lg.propagate
    lg.handlers[:] = [H()]
    lg.propagate = False
    lg.setLevel(level)
    try:
        yield msgs
    finally:
        lg.setLevel(lv)
        lg.handlers[:] = hs
        lg.propagate = pr
