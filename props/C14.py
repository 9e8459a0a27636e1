"""C14: importance-sampling estimators"""
from .common import registry

HARNESSES, harness = registry()
BOUNDS = "weights in [0, 1000] (log weights in [-20, 20] or minus infinity) with a positive entry per event; 1 event x 3 samples, 2 events x 2 and x 4 samples; 2 or 3 found injections, total injection count any integer in [found+1, 10^6]"
OUTSIDE = "larger arrays (the reductions are over whole rows), an injection set equal to all generated injections with equal weights (zero variance)"
A = "gwinferno.pipeline.analysis"
SIZES = [(1, 3), (2, 2), (2, 4)]


def mat(S, rows):
    return S.j(rows)


def weights(S, ne, ns, pos=False):
    w = [S.reals(f"w{i}_", ns, 0, 1000, lo_open=pos) for i in range(ne)]
    for r in w:
        t = r[0]
        for v in r[1:]:
            t = t + v
        S.assume(S.gt(t, 0))
        if not S.sym:
            S.assume(S.gt(t, 1e-3))
    return w


def ssum(r):
    t = r[0]
    for v in r[1:]:
        t = t + v
    return t


@harness()
def linear(S):
    m = S.module(A)
    ne, ns = S.choose("size", SIZES)
    w = weights(S, ne, ns)
    W = mat(S, w)
    w0 = S.snapshot(W)
    bf, ln, var = m.per_event_log_bayes_factors(W)
    S.prove_true("shapes", S.shape(bf) == (ne,) and S.shape(ln) == (ne,) and S.shape(var) == (ne,))
    S.prove_same("weights untouched", W, w0)
    for i, r in enumerate(w):
        s, s2 = ssum(r), ssum([v * v for v in r])
        S.prove_eq("evidence is the mean weight", S.exp(S.at(bf, i)) * ns, s)
        n = S.exp(S.at(ln, i))
        S.prove_eq("effective sample size", n * s2, s * s)
        S.prove_ge("at least one", n, 1 if S.sym else 1 - 1e-5)
        S.prove_le("at most the sample count", n, ns if S.sym else ns + 1e-4)
        S.prove_eq("variance", S.at(var, i), S.div(s2, s * s) - S.div(S.num(1), S.num(ns)))
        S.prove_ge("variance non-negative", S.at(var, i), 0 if S.sym else -1e-5)


@harness()
def log_agrees(S):
    """log weights (finite) give the same as weights"""
    m = S.module(A)
    ne, ns = S.choose("size", SIZES)
    lw = [S.reals(f"l{i}_", ns, -20, 20) for i in range(ne)]
    a = m.per_event_log_bayes_factors(mat(S, lw), log=True)
    b = m.per_event_log_bayes_factors(mat(S, [[S.exp(v) for v in r] for r in lw]), log=False)
    for i in range(ne):
        s, s2 = ssum([S.exp(v) for v in lw[i]]), ssum([S.exp(2 * v) for v in lw[i]])
        S.prove_eq("log evidence", S.exp(S.at(a[0], i)) * ns, s)
        S.prove_eq("log effective size", S.exp(S.at(a[1], i)) * s2, s * s)
        for nm, x, y in zip(("evidence", "effective size", "variance"), a, b):
            S.prove_eq(nm, S.at(x, i), S.at(y, i))


@harness()
def log_shift(S):
    """adding a constant to all log weights of an event shifts its log evidence and nothing else, however large the constant:
    the log mode exists for weights outside the floating-point range, and the witness runs replay it there"""
    m = S.module(A)
    ne, ns = S.choose("size", SIZES)
    s = S.choose("shift", [-1500, 900])
    lw = [S.reals(f"l{i}_", ns, -20, 20) for i in range(ne)]
    a = m.per_event_log_bayes_factors(mat(S, lw), log=True)
    b = m.per_event_log_bayes_factors(mat(S, [[v + s for v in r] for r in lw]), log=True)
    for i in range(ne):
        S.prove_eq("shifted log evidence", S.at(b[0], i), S.at(a[0], i) + s)
        S.prove_eq("effective size", S.at(b[1], i), S.at(a[1], i))
        S.prove_eq("variance", S.at(b[2], i), S.at(a[2], i))


@harness()
def log_zero_weights(S):
    """minus-infinity log weights count as zero weights"""
    m = S.module(A)
    z = S.choose("zero position", 3)
    lv = S.reals("l", 2, -20, 20)
    it, iu = iter(lv), iter(lv)
    lw = [-float("inf") if i == z else next(it) for i in range(3)]
    w = [S.num(0) if i == z else S.exp(next(iu)) for i in range(3)]
    a = m.per_event_log_bayes_factors(mat(S, [lw]), log=True)
    b = m.per_event_log_bayes_factors(mat(S, [w]))
    for nm, x, y in zip(("evidence", "effective size", "variance"), a, b):
        S.prove_eq(nm, S.at(x, 0), S.at(y, 0))
    N = S.real("N", 4, 10**6)
    c = m.detection_efficiency(S.j(lw), N, log=True)
    d = m.detection_efficiency(S.j(w), N)
    for nm, x, y in zip(("efficiency", "injection effective size", "efficiency variance"), c, d):
        S.prove_eq(nm, x, y)


@harness()
def order_and_scale(S):
    m = S.module(A)
    w = weights(S, 1, 3)[0]
    p = S.choose("order", [(1, 0, 2), (1, 2, 0)])
    c = S.real("c", 0, 100, lo_open=True)
    if not S.sym:
        S.assume(S.gt(c, 1e-2))
    a = m.per_event_log_bayes_factors(mat(S, [w]))
    b = m.per_event_log_bayes_factors(mat(S, [[w[i] for i in p]]))
    d = m.per_event_log_bayes_factors(mat(S, [[v * c for v in w]]))
    N = S.real("N", 4, 10**6)
    e = m.detection_efficiency(S.j(w), N)
    f = m.detection_efficiency(S.j([w[i] for i in p]), N)
    g = m.detection_efficiency(S.j([v * c for v in w]), N)
    for k in range(3):
        S.prove_eq("event estimate ignores order", S.at(a[k], 0), S.at(b[k], 0))
        S.prove_eq("efficiency ignores order", e[k], f[k])
        sh = S.log(c) if k == 0 else 0
        S.prove_eq("scaling event weights", S.at(d[k], 0), S.at(a[k], 0) + sh)
        S.prove_eq("scaling injection weights", g[k], e[k] + sh)


@harness()
def rows_independent(S):
    """each event's numbers depend on its own row only"""
    m = S.module(A)
    w = weights(S, 2, 2)
    lg = S.choose("log", 2)
    if lg:
        S.assume(*[S.gt(v, 0) for r in w for v in r])
        if not S.sym:
            S.assume(*[S.gt(v, 1e-3) for r in w for v in r])
    f = (lambda v: S.log(v)) if lg else (lambda v: v)
    a = m.per_event_log_bayes_factors(mat(S, [[f(v) for v in r] for r in w]), log=bool(lg))
    for i in range(2):
        b = m.per_event_log_bayes_factors(mat(S, [[f(v) for v in w[i]]]), log=bool(lg))
        for k in range(3):
            S.prove_eq("own row", S.at(a[k], i), S.at(b[k], 0))


@harness()
def efficiency(S):
    m = S.module(A)
    nf = S.choose("found", [2, 3])
    w = S.reals("w", nf, 0, 1000)
    N = S.real("N", nf + 1, 10**6)
    s, s2 = ssum(w), ssum([v * v for v in w])
    S.assume(S.gt(s, 0))
    if not S.sym:
        S.assume(S.gt(s, 1e-3))
    lm, ln, var = m.detection_efficiency(S.j(w), N)
    S.prove_eq("efficiency", S.exp(lm) * N, s)
    S.prove_gt("variance of the mean positive", S.div(s2, N * N) - S.div(s * s, N * N * N), 0)
    S.prove_eq("effective sample size", S.exp(ln) * (S.div(s2, N * N) - S.div(s * s, N * N * N)) * N * N, s * s)
    S.prove_eq("variance", var, S.exp(-ln) - S.div(S.num(1), N))


@harness()
def efficiency_log(S):
    m = S.module(A)
    nf = S.choose("found", [2, 3])
    lw = S.reals("l", nf, -20, 20)
    N = S.real("N", nf + 1, 10**6)
    w = [S.exp(v) for v in lw]
    s, s2 = ssum(w), ssum([S.exp(2 * v) for v in lw])
    a = m.detection_efficiency(S.j(lw), N, log=True)
    S.prove_eq("efficiency", S.exp(a[0]) * N, s)
    S.prove_eq("effective sample size", S.exp(a[1]) * (S.div(s2, N * N) - S.div(s * s, N * N * N)) * N * N, s * s)
    b = m.detection_efficiency(S.j(w), N)
    for nm, x, y in zip(("efficiency", "effective size", "variance"), a, b):
        S.prove_eq("log and linear: " + nm, x, y)
