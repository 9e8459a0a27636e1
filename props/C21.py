"""C21: beta shape parameters <-> mean and variance"""
from .common import registry

HARNESSES, harness = registry()
BOUNDS = "alpha, beta in (0, 100], scale in (0, 10]; scalars and length-2 arrays (numpy and jax)"
OUTSIDE = "longer arrays (elementwise code), non-positive shape parameters"
D = "gwinferno.preprocess.conversions"


@harness()
def forward_back(S):
    m = S.module(D)
    al = S.real("alpha", 0, 100, lo_open=True)
    be = S.real("beta", 0, 100, lo_open=True)
    A = S.real("amax", 0, 10, lo_open=True)
    mu, var = m.mu_var_from_alpha_beta(al, be, A)
    S.prove_eq("mean", mu * (al + be), A * al)
    S.prove_eq("variance", var * (al + be) * (al + be) * (al + be + 1), A * A * al * be)
    S.prove_gt("mean positive", mu, 0)
    S.prove_lt("mean below scale", mu, A)
    a2, b2 = m.alpha_beta_from_mu_var(mu, var, A)
    S.prove_eq("alpha round trip", a2, al)
    S.prove_eq("beta round trip", b2, be)


@harness()
def default_scale(S):
    m = S.module(D)
    al = S.real("alpha", 0, 100, lo_open=True)
    be = S.real("beta", 0, 100, lo_open=True)
    mu, var = m.mu_var_from_alpha_beta(al, be)
    S.prove_eq("mean", mu * (al + be), al)
    a2, b2 = m.alpha_beta_from_mu_var(mu, var)
    S.prove_eq("alpha round trip", a2, al)
    S.prove_eq("beta round trip", b2, be)


@harness()
def back_forward(S):
    m = S.module(D)
    A = S.real("amax", 0, 10, lo_open=True)
    mu = S.real("mu", 0, 10, lo_open=True)
    var = S.real("var", 0, 100, lo_open=True)
    S.assume(S.lt(mu, A), S.lt(var, mu * (A - mu)))
    al, be = m.alpha_beta_from_mu_var(mu, var, A)
    S.prove_gt("alpha positive", al, 0)
    S.prove_gt("beta positive", be, 0)
    mu2, var2 = m.mu_var_from_alpha_beta(al, be, A)
    S.prove_eq("mu round trip", mu2, mu)
    S.prove_eq("var round trip", var2, var)


def _arr(S, jx):
    m = S.module(D)
    mk = S.j if jx else S.n
    A = S.real("amax", 0, 10, lo_open=True)
    al = S.reals("alpha", 2, 0, 100, lo_open=True)
    be = S.reals("beta", 2, 0, 100, lo_open=True)
    aa, bb = mk(al), mk(be)
    s1, s2 = S.snapshot(aa), S.snapshot(bb)
    mu, var = m.mu_var_from_alpha_beta(aa, bb, A)
    S.prove_same("alpha unchanged", s1, aa)
    S.prove_same("beta unchanged", s2, bb)
    mus, vs = S.elems(mu), S.elems(var)
    mu, var = mk(mus), mk(vs)
    s1, s2 = S.snapshot(mu), S.snapshot(var)
    a2, b2 = m.alpha_beta_from_mu_var(mu, var, A)
    S.prove_same("mu unchanged", s1, mu)
    S.prove_same("var unchanged", s2, var)
    S.prove_eq("alpha round trip", a2, mk(al))
    S.prove_eq("beta round trip", b2, mk(be))


@harness()
def arrays_numpy(S):
    _arr(S, False)


@harness()
def arrays_jax(S):
    _arr(S, True)
