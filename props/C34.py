"""C34: population plots"""
import os

import numpy as np

from .common import registry

HARNESSES, harness = registry()
BOUNDS = "1, 2 or 3 posterior draws (thorough: 4) on grids of 2 or 3 points (more than one grid length per figure), 1 to 3 subpopulations, any curve values in [0, 10]"
OUTSIDE = "more draws and longer grids; axis limits, labels and the appearance of the figure; what matplotlib does with the lines it is given"
ASSUMPTIONS = ["matplotlib.pyplot is a recorder of the lines, bands and file names it is given"]
M = "gwinferno.postprocess.plot"
LINES = ("plot", "loglog", "semilogx", "semilogy")


class Fig:
    def __init__(self):
        self.lines, self.bands, self.saved, self.closed = [], [], [], False


class Recorder:
    """stands in for pyplot, and for the figures and axes it hands out"""

    def __init__(self, root=None, fig=None):
        self.__dict__.update(root=root or self, fig=fig)
        if root is None:
            self.__dict__.update(figs=[], cur=None)

    def _new(self):
        f = Fig()
        self.root.figs.append(f)
        self.root.__dict__["cur"] = f
        return f

    def _f(self):
        return self.fig or self.root.cur or self._new()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = self.root

        def call(*a, **k):
            if name in ("figure", "subplots"):
                p = Recorder(r, self._new())
                return (p, p) if name == "subplots" else p
            if name in ("gca", "gcf", "add_subplot", "subplot", "axes"):
                return Recorder(r, self._f())
            if name in LINES:
                self._f().lines.append((name, a, k))
            elif name == "fill_between":
                self._f().bands.append((a, k))
            elif name == "savefig":
                self._f().saved.append(str(k.get("fname", a[0] if a else None)))
            elif name == "close":
                if a and isinstance(a[0], Recorder):
                    a[0]._f().closed = True
                elif a and a[0] == "all":
                    for f in r.figs:
                        f.closed = True
                    r.__dict__["cur"] = None
                elif r.cur is not None:
                    r.cur.closed = True
                    r.__dict__["cur"] = None
            return Recorder(r, self.fig)

        return call


def ordered(S, v):
    """ascending values"""
    if len(v) == 1:
        return v
    if len(v) == 2:
        return [S.min(v[0], v[1]), S.max(v[0], v[1])]
    if len(v) == 3:
        lo, hi = S.min(S.min(v[0], v[1]), v[2]), S.max(S.max(v[0], v[1]), v[2])
        return [lo, v[0] + v[1] + v[2] - lo - hi, hi]
    out = []
    for x in v:
        i = 0
        while i < len(out) and S.test_le(out[i], x):
            i += 1
        out.insert(i, x)
    return out


def quant(S, v, num, den):
    s = ordered(S, v)
    k, r = divmod(num * (len(s) - 1), den)
    if r == 0:
        return s[k]
    return s[k] * S.num(den - r) / den + s[k + 1] * S.num(r) / den


def curve(S, name, n, m):
    return [S.reals(f"{name}_{i}_", m, 0, 10) for i in range(n)]


def check_curve(S, line, band, grid, val, name=None, colour=None):
    _, a, k = line
    for what, g in (("line", a[0]), ("band", band[0][0])):
        g = S.elems(g)
        S.prove_true(f"grid of the {what}", len(g) == len(grid))
        for u, v in zip(g, grid):
            S.prove_eq(f"the {what} is drawn against its own grid", u, v)
    y, lo, hi = S.elems(a[1]), S.elems(band[0][1]), S.elems(band[0][2])
    S.prove_true("one value per grid point", len(y) == len(lo) == len(hi) == len(grid))
    for j in range(len(grid)):
        c = [r[j] for r in val]
        S.prove_eq("median over draws", y[j], quant(S, c, 1, 2))
        S.prove_eq("5th percentile over draws", lo[j], quant(S, c, 1, 20))
        S.prove_eq("95th percentile over draws", hi[j], quant(S, c, 19, 20))
    if name is not None:
        S.prove_true("own name", k.get("label") == name)
    if colour is not None:
        S.prove_true("own colour", k.get("color", k.get("c")) == colour and band[1].get("color", band[1].get("facecolor")) == colour)


def stub(S):
    m, r = S.module(M), Recorder()
    S.patch(m, "plt", r)
    return m, r


@harness(weight=2)
def one_curve(S):
    m, r = stub(S)
    n, g = S.choose("size", [(3, 2), (2, 3), (1, 2), (3, 1)])
    val, x = curve(S, "p", n, g), S.reals("x", g, 1, 5)
    log = S.choose("loglog", [True, False])
    a = S.n(val)
    snap = S.snapshot(a)
    m.plot_pdf(S.n(x), a, "name", color="c1", loglog=log)
    S.prove_same("curves unchanged", snap, a)
    S.prove_true("one line and one band", len(r.figs) == 1 and len(r.figs[0].lines) == 1 and len(r.figs[0].bands) == 1)
    f = r.figs[0]
    check_curve(S, f.lines[0], f.bands[0], x, val, "name", "c1")


@harness(tier="thorough", time=400)
def one_curve_four(S):
    m, r = stub(S)
    val, x = curve(S, "p", 4, 2), S.reals("x", 2, 1, 5)
    m.plot_pdf(S.n(x), S.n(val), "name")
    check_curve(S, r.figs[0].lines[0], r.figs[0].bands[0], x, val, "name")


def _two_figures(S, call, names, sizes, n, save):
    """two figures, one per quantity, each with every subpopulation's own curve"""
    K = len(names)
    grids = [S.reals(f"g{k}_", sizes[k], 1, 5) for k in range(2)]
    # a free pair of draws per curve at the first grid point, fixed values elsewhere
    vals = [[[[S.real(f"v{k}{i}_{d}", 0, 10) if j == 0 else S.num(1 + ((3 * k + 5 * i + 7 * d + 2 * j) % 9)) for j in range(sizes[k])] for d in range(n)] for i in range(K)] for k in range(2)]
    m, r = stub(S)
    cols = ["c0", "c1", "c2"]
    call(m, *[[S.n(v) for v in q] for q in vals], *[S.n(g) for g in grids], names, "lab", "/scratch/dir", save, cols)
    S.prove_true("two figures", len(r.figs) == 2)
    for k, f in enumerate(r.figs[:2]):
        S.prove_true("one line and one band per subpopulation", len(f.lines) == K and len(f.bands) == K)
        for i in range(min(K, len(f.lines), len(f.bands))):
            check_curve(S, f.lines[i], f.bands[i], grids[k], vals[k][i], names[i], cols[i])
        S.prove_true("saved exactly when asked", len(f.saved) == (1 if save else 0))
        for p in f.saved:
            S.prove_true("saved in the result directory under its label", os.path.dirname(os.path.normpath(p)) == "/scratch/dir" and "lab" in os.path.basename(p))
        S.prove_true("figure closed", f.closed)
    return [p for f in r.figs for p in f.saved]


NAMES = [["one"], ["low", "high"], ["low", "high", "third"]]


@harness(weight=2)
def masses(S):
    save = S.choose("save", [True, False])
    names = S.choose("names", NAMES)
    p = _two_figures(S, lambda m, a, b, x, y, nm, lab, d, s, c: m.plot_mass_pdfs(a, b, x, y, nm, lab, d, save=s, colors=c), names, (3, 2), 2, save)
    S.prove_true("one file per quantity", len(set(p)) == len(p))


@harness(weight=2)
def spins(S):
    names = S.choose("names", NAMES)
    files = []
    sec = S.choose("secondary", [True, False])
    p = _two_figures(S, lambda m, a, b, x, y, nm, lab, d, s, c: m.plot_spin_pdfs(a, b, x, y, nm, lab, d, save=s, colors=c, secondary=sec), names, (2, 3), 2, True)
    m, r = stub(S)
    one = [S.n([[S.num(1), S.num(2)]])]
    m.plot_spin_pdfs(one, one, S.n([S.num(1), S.num(2)]), S.n([S.num(1), S.num(2)]), ["x"], "lab", "/scratch/dir", save=True, secondary=not sec)
    files = p + [q for f in r.figs for q in f.saved]
    S.prove_true("one file per quantity and component", len(files) == 4 and len(set(files)) == 4)


@harness()
def redshift(S):
    m, r = stub(S)
    n, g = S.choose("size", [(3, 2), (2, 3)])
    save = S.choose("save", [True, False])
    val, x = curve(S, "p", n, g), S.reals("x", g, 0, 1)
    m.plot_rate_of_z_pdfs(S.n(val), S.n(x), "lab", "/scratch/dir", save=save)
    S.prove_true("one figure with one curve", len(r.figs) == 1 and len(r.figs[0].lines) == 1 and len(r.figs[0].bands) == 1)
    f = r.figs[0]
    check_curve(S, f.lines[0], f.bands[0], x, val)
    S.prove_true("saved exactly when asked", len(f.saved) == (1 if save else 0))
    for p in f.saved:
        S.prove_true("saved in the result directory under its label", os.path.dirname(os.path.normpath(p)) == "/scratch/dir" and "lab" in os.path.basename(p))
