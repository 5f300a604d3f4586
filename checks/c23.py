"""C23: bivariate normal functions, contingency-table probabilities, polychoric and polyserial correlations."""
import contextlib
import io
import warnings
import numpy as np
import pandas as pd
from scipy.special import ndtr, ndtri
from vlib.mon import workload, nderiv

GX, GW = np.polynomial.legendre.leggauss(60)


def phi(x):
    return np.exp(-.5 * x * x) / np.sqrt(2 * np.pi)


def Phi2(h, k, r):
    """bivariate normal distribution function: Plackett's integral over the angle, panels graded towards asin(r)"""
    h, k = np.broadcast_arrays(np.asarray(h, float), np.asarray(k, float))
    hc, kc = np.clip(h, -40, 40), np.clip(k, -40, 40)
    a = np.arcsin(r)
    if abs(r) < .9:
        edges = np.array([0, .5, 1.])
    else:
        edges = np.r_[0, .5, 1 - .5 ** np.arange(2, 22), 1.]
    tot = ndtr(hc) * ndtr(kc)
    for lo, hi in zip(edges[:-1] * a, edges[1:] * a):
        t = .5 * (hi + lo) + .5 * (hi - lo) * GX
        s, c2 = np.sin(t), np.cos(t) ** 2
        e = -((hc - kc)[..., None] ** 2 + 2 * (hc * kc)[..., None] * (1 - s)) / (2 * c2)
        tot = tot + .5 * (hi - lo) * (np.exp(np.minimum(e, 700)) * GW).sum(-1) / (2 * np.pi)
    return tot


def pdf2(h, k, r):
    h, k = np.clip(h, -40, 40), np.clip(k, -40, 40)
    return np.exp(-(h * h + k * k - 2 * r * h * k) / (2 * (1 - r * r))) / (2 * np.pi * np.sqrt(1 - r * r))


def cells(ta, tb, r):
    """probabilities of the cells of the table with inner thresholds ta (rows) and tb (columns)"""
    A, B = np.r_[-40., ta, 40.], np.r_[-40., tb, 40.]
    P = Phi2(A[:, None], B[None, :], r)
    return np.diff(np.diff(P, axis=0), axis=1)


def draw_point(rng):
    h, k = rng.normal(size=2) * rng.choice([.5, 1.5, 3.])
    u = rng.random()
    if u < .25:
        k = h + rng.normal() * .05
    elif u < .35:
        k = -h + rng.normal() * .05
    elif u < .45:
        h = float(rng.choice([0., -1e6, 1e6, -8, 8]))
    elif u < .5:
        h = k = float(rng.choice([0., 1., -1.]))
    R = rng.choice([0., .05, .3, .5, .7, .9, .925, .95, .98, .99, .995, .999, .9999])
    return float(h), float(k), float(rng.choice([-1, 1]) * (R if rng.random() < .7 else R * rng.random()))


@workload("bivariate normal", quick=150, thorough=6000, timeout=300)
def w_bvn(cx):
    from pystatsm.pylvcorr import statfuncs as sf
    from pystatsm.utilities import func_utils as fu
    rng = cx.rng
    h, k, r = draw_point(rng)
    cx.case((abs(r) > .9, abs(r) > .99, abs(h) > 5, abs(k - h) < .2, r > 0), h=h, k=k, r=r)
    want = float(Phi2(h, k, r))
    tol = 3e-14 if abs(r) <= .99 else 1e-12 if abs(r) <= .9991 else 2e-10
    for nm, M in (("compiled", sf), ("utilities", fu)):
        P = lambda a, b, c: float(np.ravel(M.binorm_cdf(a, b, c))[0])
        cx.close(f"{nm}: distribution function", P(h, k, r), want, 0, tol)
        cx.close(f"{nm}: the distribution function is symmetric", P(k, h, r), P(h, k, r), 0, tol)
        cx.close(f"{nm}: Phi(h,k,r)+Phi(h,-k,-r)=Phi(h)", P(h, k, r) + P(h, -k, -r), ndtr(h), 0, tol)
        cx.close(f"{nm}: infinite upper limit gives the margin", P(h, 1e6, r), ndtr(h), 0, tol)
        cx.close(f"{nm}: infinite lower limit gives zero", P(h, -1e6, r), 0, 0, tol)
        cx.ok(f"{nm}: probabilities lie in the unit interval", -tol <= P(h, k, r) <= min(ndtr(h), ndtr(k)) + tol)
        if abs(h) < 100:
            cx.close(f"{nm}: density", float(np.ravel(M.binorm_pdf(h, k, r))[0]), pdf2(h, k, r), 1e-10, 1e-300)
        # arrays, matrices, integers
        H = rng.normal(size=(3, 4)) * 1.5
        K = rng.normal(size=(3, 4)) * 1.5
        if rng.random() < .3:
            H = np.round(H).astype(int)
        if rng.random() < .3:
            K = np.round(K).astype(int)
        cx.close(f"{nm}: distribution function of arrays", M.binorm_cdf(H, K, r), Phi2(H, K, r), 0, tol)
        cx.close(f"{nm}: density of arrays", M.binorm_pdf(H, K, r), pdf2(H.astype(float), K.astype(float), r), 1e-10, 1e-300)
        cx.close(f"{nm}: distribution function broadcasts", M.binorm_cdf(H[0], K[0, 0], r), Phi2(H[0], K[0, 0], r), 0, tol)
    cx.close("normal distribution function", sf.norm_cdf(np.array([h, k])), ndtr([h, k]), 1e-12, 1e-15)
    cx.close("normal density", sf.norm_pdf(np.array([h, k])), phi(np.array([h, k])), 1e-12, 1e-300)
    cx.close("normal quantile", sf.norm_qtf(np.array([.2, .93])), ndtri([.2, .93]), 1e-12, 0)
    # rectangles
    lo = np.array([h, k])
    up = lo + rng.exponential(size=2) + .1
    want = float(np.diff(np.diff(Phi2(np.array([lo[0], up[0]])[:, None], np.array([lo[1], up[1]])[None], r), axis=0), axis=1)[0, 0])
    f = lambda v: float(np.ravel(v)[0])
    cx.close("probability of a rectangle", f(fu.binorm_cdf_region(lo, up, r)), want, 0, 4 * tol)
    cx.close("probability of a rectangle (compiled)", f(sf.binorm_cdf2(lo, up, r)), want, 0, 4 * tol)
    if abs(r) < .995:
        rect = lambda z: float(np.diff(np.diff(Phi2(np.array([lo[0], up[0]])[:, None], np.array([lo[1], up[1]])[None], z[0]), axis=0), axis=1)[0, 0])
        sc = min(.05, .3 * (1 - abs(r)))
        D, e = nderiv(lambda z: np.array([rect(z)]), np.array([r]), scale=sc)
        dens = lambda z: sum(s * pdf2(a, b, z[0]) for s, a, b in ((1, up[0], up[1]), (-1, up[0], lo[1]), (-1, lo[0], up[1]), (1, lo[0], lo[1])))
        D2, e2 = nderiv(lambda z: np.array([dens(z)]), np.array([r]), scale=sc)
        for nm, p1, p2 in (("utilities", fu.binorm_pdf_region, fu.dbinorm_pdf_region), ("compiled", sf.binorm_pdf2, sf.dbinorm_pdf2)):
            cx.close(f"{nm}: derivative of a rectangle by the correlation", f(p1(lo, up, r)), float(np.ravel(D)[0]), 1e-6, 1e-8 + 10 * float(np.max(e)))
            cx.close(f"{nm}: the same from the density", f(p1(lo, up, r)), float(dens([r])), 1e-9, 1e-13)
            cx.close(f"{nm}: second derivative of a rectangle", f(p2(lo, up, r)), float(np.ravel(D2)[0]), 1e-6, 1e-8 + 10 * float(np.max(e2)))


@workload("derivatives of the distribution function", quick=100, thorough=4000, timeout=300)
def w_dbvn(cx):
    from pystatsm.pylvcorr import statfuncs as sf
    from pystatsm.utilities import func_utils as fu
    rng = cx.rng
    h, k = rng.normal(size=2) * rng.choice([.7, 1.5])
    if rng.random() < .2:
        k = h + .1 * rng.normal()
    r = float(np.clip(rng.choice([-1, 1]) * rng.choice([0, .2, .5, .8, .9, .95, .98]) + .01 * rng.normal(), -.985, .985))
    cx.case((abs(r) > .9, r > 0, abs(k - h) < .2), h=h, k=k, r=r)
    s = np.sqrt(1 - r * r)
    sc = .3 * s
    x0 = np.array([h, k, r])
    sca = np.array([sc, sc, min(.05, .3 * (1 - abs(r)))])
    F = lambda z: np.array([float(Phi2(z[0], z[1], z[2]))])
    D, e = nderiv(F, x0, scale=sca)
    D, e = np.ravel(D), np.ravel(e)
    cl = lambda m, got, want, err: cx.close(m, float(np.ravel(got)[0]), want, 1e-6, 1e-9 + 10 * err)
    cl("first derivative by a threshold", fu.dbinorm_cdf_du(h, k, r), D[0], e[0])
    cl("first derivative by the other threshold", fu.dbinorm_cdf_du(k, h, r), D[1], e[1])
    cl("first derivative (compiled)", sf.dbinorm_du(h, k, r), D[0], e[0])
    cl("derivative by the correlation is the density", fu.binorm_pdf(h, k, r), D[2], e[2])
    G = lambda z: np.array([phi(z[0]) * ndtr((z[1] - z[2] * z[0]) / np.sqrt(1 - z[2] ** 2)), pdf2(z[0], z[1], z[2])])
    J, ej = nderiv(G, x0, scale=sca)
    J, ej = J.reshape(2, 3), ej.reshape(2, 3)
    cl("second derivative by a threshold", fu.d2binorm_cdf_du2(h, k, r), J[0, 0], ej[0, 0])
    cl("mixed derivative by the thresholds", fu.d2binorm_cdf_duv(h, k, r), J[0, 1], ej[0, 1])
    cl("mixed derivative by threshold and correlation", fu.d2binorm_cdf_dur(h, k, r), J[0, 2], ej[0, 2])
    cl("mixed derivative by the other threshold and correlation", fu.d2binorm_cdf_dur(k, h, r), J[1, 1], ej[1, 1])
    cl("second derivative by the correlation", fu.dbinorm_pdf(h, k, r), J[1, 2], ej[1, 2])
    cl("second derivative by the correlation (compiled)", sf.dbinorm_pdf(h, k, r), J[1, 2], ej[1, 2])
    # infinite thresholds: every derivative in the open direction is the derivative of the margin
    B = float(rng.choice([1e6, 1e10, 1e12]))
    cl("derivative of the margin", fu.dbinorm_cdf_du(h, B, r), phi(h), 0)
    cl("second derivative of the margin", fu.d2binorm_cdf_du2(h, B, r), -h * phi(h), 0)
    for nm, fn in (("dur", fu.d2binorm_cdf_dur), ("duv", fu.d2binorm_cdf_duv), ("drr", fu.dbinorm_pdf), ("drr compiled", sf.dbinorm_pdf)):
        for b in (B, -B):
            cl(f"no derivative at infinity: {nm}", fn(h, b, r), 0, 0)
    for b in (B, -B):
        for fn in (fu.binorm_pdf, sf.binorm_pdf):
            cl("no density at infinity", fn(h, b, r), 0, 0)
    cl("no derivative at minus infinity", fu.dbinorm_cdf_du(h, -B, r), 0, 0)
    cl("no second derivative at minus infinity", fu.d2binorm_cdf_du2(h, -B, r), 0, 0)


def gen(cx, p, n=None, rmax=None, miss=False):
    """ordinal data from a latent normal with a known correlation, categories of unequal size"""
    rng = cx.rng
    n = int(n or rng.integers(80, 600))
    rmax = float(rmax or rng.choice([.2, .5, .8, .93]))
    L = rng.normal(size=(p, max(1, p // 2)))
    R = L @ L.T + .3 * np.eye(p)
    d = np.sqrt(np.diag(R))
    R = R / d / d[:, None]
    R = np.eye(p) + (R - np.eye(p)) * rmax
    if p == 2:
        R[0, 1] = R[1, 0] = rmax * rng.choice([-1, 1])
    Z = rng.multivariate_normal(np.zeros(p), R, size=n)
    nc = rng.integers(2, 6, size=p)
    X = np.zeros((n, p))
    sparse = rng.random() < .3
    for j in range(p):
        q = np.cumsum(rng.dirichlet((1.5 if sparse else 6.) * np.ones(nc[j])))[:-1]
        X[:, j] = np.digitize(Z[:, j], ndtri(np.clip(q, .02, .98)))
        X[:, j] = np.unique(X[:, j], return_inverse=True)[1]
        if len(np.unique(X[:, j])) < 2:
            cx.skip("a single category")
    for i in range(p):
        for j in range(i):
            r0 = np.corrcoef(X[:, i], X[:, j])[0, 1]
            if abs(r0) > .93 or len(np.unique(X[:, i] + 10 * X[:, j])) < 3:
                cx.skip("nearly deterministic table")
            if len(np.unique(X[:, i])) == 2 and len(np.unique(X[:, j])) == 2:
                T = pd.crosstab(X[:, i], X[:, j]).values
                if T.min() == 0:
                    cx.skip("two by two table with an empty cell has no interior maximum")
    return X, R, Z


def inner(x):
    _, c = np.unique(x, return_counts=True)
    return ndtri(np.cumsum(c)[:-1] / c.sum())


def table(x, y):
    return pd.crosstab(x, y).values.astype(float)


def nll(T, P):
    return -np.sum(T[T > 0] * np.log(np.maximum(P[T > 0], 1e-16)))


def oracle(x, y):
    T, ta, tb = table(x, y), inner(x), inner(y)
    return T, ta, tb, (lambda r: nll(T, cells(ta, tb, float(np.ravel(r)[0]))))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def f0(v):
    return float(np.ravel(v)[0])


def check_curve(cx, nm, T, ta, tb, f, r, val, grad, hess, tanh=None):
    """a one-parameter objective with its derivatives against the oracle"""
    P = cells(ta, tb, r)
    if P[T > 0].min() < 1e-12:
        cx.note("cell too improbable for the objective")
        return
    cx.close(f"{nm}: objective is the negative log-likelihood", f0(val(r)), f(r), 1e-9, 1e-9 + 1e-14 * np.sum(T[T > 0] / P[T > 0]))
    if P[T > 0].min() < 1e-7:
        cx.note("cell too improbable for derivatives")
        return
    sc = min(.03, .2 * (1 - abs(r)))
    w = lambda z: f(z[0])
    cx.deriv(f"{nm}: gradient", np.atleast_1d(f0(grad(r))), w, np.array([r]), 2e-6, 1e-5 * T.sum() ** .5, sc)
    cx.deriv(f"{nm}: Hessian", np.atleast_1d(f0(hess(r))), lambda z: f0(grad(z[0])), np.array([r]), 2e-6, 1e-6 * T.sum(), sc)
    if tanh is not None:
        tv, tg, th = tanh
        y = np.arctanh(r)
        cx.close(f"{nm}: objective in Fisher's scale", f0(tv(y)), f(r), 1e-9, 1e-9)
        cx.deriv(f"{nm}: gradient in Fisher's scale", np.atleast_1d(f0(tg(y))), lambda z: f(np.tanh(z[0])), np.array([y]), 2e-6, 1e-5 * T.sum() ** .5, .05)
        cx.deriv(f"{nm}: Hessian in Fisher's scale", np.atleast_1d(f0(th(y))), lambda z: f0(tg(z[0])), np.array([y]), 2e-6, 1e-6 * T.sum(), .05)


def check_probs(cx, nm, P, want):
    P = np.asarray(P)
    cx.close(f"{nm}: probabilities sum to one", P.sum(), 1, 0, 1e-12)
    cx.ok(f"{nm}: probabilities are non-negative", P.min() >= -1e-12, float(P.min()))
    cx.close(f"{nm}: probabilities", P, want, 0, 1e-11)


@workload("tables", quick=24, thorough=900, timeout=400)
def w_tables(cx):
    from pystatsm.pylvcorr import lvcorr, polychoric, polychoric2, statfuncs as sf
    rng = cx.rng
    p = int(rng.integers(2, 5))
    X, R, Z = gen(cx, p)
    df = pd.DataFrame(X, columns=[f"x{i}" for i in range(p)])
    r = float(np.clip(rng.choice([-1, 1]) * rng.choice([0, .3, .6, .85, .95]) + .02 * rng.normal(), -.97, .97))
    i, j = [int(v) for v in rng.choice(p, 2, replace=False)]
    cx.case((p, tuple(sorted([len(np.unique(X[:, i])), len(np.unique(X[:, j]))])), abs(r) > .9, r > 0), r=r, cats=[len(np.unique(X[:, k])) for k in range(p)])
    T, ta, tb, f = oracle(X[:, i], X[:, j])
    want = cells(ta, tb, r)
    # a pair of variables
    m = lvcorr._Polychor(X[:, i], X[:, j])
    check_probs(cx, "pair", np.reshape(m.prob(r), T.shape), want)
    check_curve(cx, "pair", T, ta, tb, f, r, m.loglike, m.gradient, m.hessian)
    # all pairs
    mc = lvcorr.PolychoricCorr(df)
    check_probs(cx, "all pairs", np.reshape(mc.prob(r, i, j), T.shape), want)
    g = lambda fn: (lambda z: fn(z, i, j))
    check_curve(cx, "all pairs", T, ta, tb, f, r, g(mc.loglike), g(mc.gradient), g(mc.hessian), (g(mc.loglike_tanh), g(mc.gradient_tanh), g(mc.hessian_tanh)))
    # shared thresholds
    mp = lvcorr.Polychoric(df)
    a, b = [(a, b) for a, b in mp.IJ_ind if {a, b} == {i, j}][0]
    Ta, taa, tba, fa = oracle(X[:, a], X[:, b])
    g = lambda fn: (lambda z: fn(z, a, b))
    check_probs(cx, "shared thresholds", mp.prob(r, a, b), cells(taa, tba, r))
    check_curve(cx, "shared thresholds", Ta, taa, tba, fa, r, g(mp.loglike), g(mp.gradient), g(mp.hessian), (g(mp.loglike_tanh), g(mp.gradient_tanh), g(mp.hessian_tanh)))
    # estimators with thresholds as parameters
    for nm, C in (("first generation", polychoric.Polychor), ("second generation", polychoric2.Polychor)):
        m = C(df)
        a, b = [(a, b) for a, b in m.inds1 if {a, b} == {i, j}][0]
        Ta, taa, tba, fa = oracle(X[:, a], X[:, b])
        P = cells(taa, tba, r)
        check_probs(cx, nm, m.predicted_probs(a, b, r=r), P)
        g = lambda fn: (lambda z: fn(z, a, b))
        tz = (lambda z: m.qloglike_transformed(np.atleast_1d(z), a, b), lambda z: m.qgradient_transformed(np.atleast_1d(z), a, b), lambda z: m.qhessian_transformed(np.atleast_1d(z), a, b))
        check_curve(cx, nm, Ta, taa, tba, fa, r, g(m.qloglike), g(m.qgradient), g(m.qhessian), tz)
        # thresholds move as well
        na, nb = len(taa), len(tba)
        ta2 = np.sort(taa + .15 * rng.normal(size=na))
        tb2 = np.sort(tba + .15 * rng.normal(size=nb))
        if np.diff(np.r_[-9, ta2, 9]).min() < .05 or np.diff(np.r_[-9, tb2, 9]).min() < .05:
            ta2, tb2 = taa.copy(), tba.copy()
        x = np.r_[ta2, tb2, r]
        F = lambda z: nll(Ta, cells(z[:na], z[na:na + nb], z[-1]))
        P2 = cells(ta2, tb2, r)
        check_probs(cx, f"{nm}, stated thresholds", m.predicted_probs(a, b, params=x.copy()), P2)
        if P2[Ta > 0].min() < 1e-12:
            continue
        cx.close(f"{nm}: full objective", f0(m.loglike(x.copy(), a, b)), F(x), 1e-9, 1e-9 + 1e-14 * np.sum(Ta[Ta > 0] / P2[Ta > 0]))
        if P2[Ta > 0].min() < 1e-7:
            continue
        n = Ta.sum()
        sc = np.r_[np.full(na + nb, .05), min(.03, .2 * (1 - abs(r)))]
        sc[:na + nb] *= min(1, 4 * np.sqrt(1 - r * r))
        gap = min(np.diff(np.r_[-9, ta2, 9]).min(), np.diff(np.r_[-9, tb2, 9]).min())
        sc[:na + nb] = np.minimum(sc[:na + nb], gap / 5)
        cx.deriv(f"{nm}: full gradient", m.gradient(x.copy(), a, b), F, x, 5e-6, 1e-5 * n ** .5, sc)
        cx.deriv(f"{nm}: full Hessian", m.hessian(x.copy(), a, b), lambda z: m.gradient(z, a, b), x, 5e-6, 1e-6 * n, sc)
        y = m.trns[m.II_ind[a, b]].fwd(x.copy())
        cx.close(f"{nm}: transformed objective", f0(m.loglike_transformed(y.copy(), a, b)), F(x), 1e-8, 1e-8)
        ft = lambda z: f0(m.loglike_transformed(z.copy(), a, b))
        cx.deriv(f"{nm}: transformed gradient", m.gradient_transformed(y.copy(), a, b), ft, y, 5e-6, 1e-5 * n ** .5, .03)
        cx.deriv(f"{nm}: transformed Hessian", m.hessian_transformed(y.copy(), a, b), lambda z: m.gradient_transformed(z.copy(), a, b), y, 5e-6, 1e-6 * n, .03)
    # functions of a table
    A, B = np.r_[-1e6, tb, 1e6], np.r_[-1e6, ta, 1e6]
    cx.close("table functions: cumulative probabilities", np.squeeze(sf.polychor_probs(A, B, r)), Phi2(A[None], B[:, None], r), 0, 1e-12)
    if want[T > 0].min() > 1e-12:
        cx.close("table functions: log-likelihood", f0(sf.polychor_loglike(T, A, B, r)), -f(r), 1e-9, 1e-9 + 1e-14 * np.sum(T[T > 0] / want[T > 0]))
    th = sf.polychor_thresh(T)
    cx.close("table functions: column thresholds", th[0][1:-1], tb, 1e-10, 1e-12)
    cx.close("table functions: row thresholds", th[1][1:-1], ta, 1e-10, 1e-12)


@workload("fits", quick=16, thorough=400, timeout=400)
def w_fits(cx):
    from pystatsm.pylvcorr import lvcorr, polychoric, polychoric2
    rng = cx.rng
    p = int(rng.integers(2, 5))
    X, R, Z = gen(cx, p)
    df = pd.DataFrame(X, columns=[f"x{i}" for i in range(p)])
    n = len(X)
    pairs = {}
    for i in range(p):
        for j in range(i):
            pairs[i, j] = oracle(X[:, i], X[:, j])
    # the maximum of each pair by the oracle
    from scipy.optimize import minimize_scalar
    hat, se = {}, {}
    for k, (T, ta, tb, f) in pairs.items():
        o = minimize_scalar(lambda z: f(np.tanh(z)), bounds=(-3.5, 3.5), method="bounded", options=dict(xatol=1e-10))
        grid = np.tanh(np.linspace(-3, 3, 25))
        v = np.array([f(g) for g in grid])
        o2 = minimize_scalar(lambda z: f(np.tanh(z)), bounds=tuple(np.arctanh(grid[[max(v.argmin() - 1, 0), min(v.argmin() + 1, 24)]])), method="bounded", options=dict(xatol=1e-11))
        r = float(np.tanh(o2.x))
        if abs(r) > .97:
            cx.skip("maximum near the boundary")
        P = cells(ta, tb, r)
        if P[T > 0].min() < 1e-6:
            cx.skip("improbable cell")
        A, B = np.r_[-40., ta, 40.], np.r_[-40., tb, 40.]
        d1 = np.diff(np.diff(pdf2(A[:, None], B[None], r), axis=0), axis=1)
        h = 1e-4 * (1 - abs(r))
        d2 = (np.diff(np.diff(pdf2(A[:, None], B[None], r + h), axis=0), axis=1) - np.diff(np.diff(pdf2(A[:, None], B[None], r - h), axis=0), axis=1)) / (2 * h)
        H = np.sum(T * (d1 / P) ** 2) - np.sum(T / P * d2)
        if H <= 0:
            cx.skip("flat likelihood")
        hat[k], se[k] = r, 1 / np.sqrt(H)
        hat[k[::-1]], se[k[::-1]] = hat[k], se[k]
    cx.case((p, n > 300, max(abs(v) for v in hat.values()) > .8), n=n, p=p, hat={str(k): v for k, v in hat.items()})
    i, j = [int(v) for v in rng.choice(p, 2, replace=False)]

    def at_max(nm, r, k):
        cx.ok(f"{nm}: correlation lies strictly between -1 and 1", -1 < r < 1, r)
        cx.ok(f"{nm}: correlation is the maximum of the likelihood", abs(r - hat[k]) < 1e-3 * se[k], dict(got=r, want=hat[k], se=se[k]))

    x, y = X[:, i], X[:, j]
    m = lvcorr._Polychor(x, y)
    quiet(m.fit)
    at_max("pair", f0(m.rho_hat), (i, j))
    cx.close("pair: standard error is the inverse root of the Hessian", f0(m.se_rho), se[i, j], 2e-3, 0)
    ms = lvcorr._Polychor(y, x)
    quiet(ms.fit)
    cx.ok("pair: swapping the variables does not matter", abs(f0(ms.rho_hat) - f0(m.rho_hat)) < 1e-3 * se[i, j])
    mr = lvcorr._Polychor(x.max() - x, y)
    quiet(mr.fit)
    cx.ok("pair: reversing the categories changes the sign", abs(f0(mr.rho_hat) + f0(m.rho_hat)) < 1e-3 * se[i, j])
    for nm, C in (("all pairs", lvcorr.PolychoricCorr), ("shared thresholds", lvcorr.Polychoric)):
        m = C(df)
        quiet(m.fit)
        cx.close(f"{nm}: unit diagonal", np.diag(m.R), 1, 0, 0)
        cx.close(f"{nm}: symmetric", m.R, m.R.T, 0, 0)
        for a in range(p):
            for b in range(a):
                at_max(nm, m.R[a, b], (a, b))
                cx.close(f"{nm}: standard errors", m.R_se[a, b], se[a, b], 2e-3, 0)
    pairs_of = None
    for nm, C in (("first generation", polychoric.Polychor), ("second generation", polychoric2.Polychor)):
        m = C(df)
        quiet(m.fit)
        rh = m.rhos if hasattr(m, "rhos") else m.rho_hat
        for k, (a, b) in enumerate(m.inds1):
            at_max(nm, rh[k], (a, b))
        # influence functions of the two-step estimator
        psi = np.zeros((len(m.inds1), n))
        for k, (a, b) in enumerate(m.inds1):
            T, ta, tb, f = oracle(X[:, a], X[:, b])
            r = rh[k]
            A, B = np.r_[-40., ta, 40.], np.r_[-40., tb, 40.]
            P = cells(ta, tb, r)
            d1 = np.diff(np.diff(pdf2(A[:, None], B[None], r), axis=0), axis=1)
            if P.min() < 1e-9:
                cx.skip("improbable cell")
            al = d1 / P
            D = np.sum(d1 * al)
            ca, cb = X[:, a].astype(int), X[:, b].astype(int)
            s = al[ca, cb].copy()
            for t, o, c, axis in ((ta, B, ca, 0), (tb, A, cb, 1)):
                Fo = ndtr((o[None] - r * t[:, None]) / np.sqrt(1 - r * r)) * phi(t)[:, None]      # dPhi2/dt at every other threshold
                dP = np.diff(Fo, axis=1)                                                         # cell below minus cell above
                for q in range(len(t)):
                    up, dn = (al[q], al[q + 1]) if axis == 0 else (al[:, q], al[:, q + 1])
                    bq = np.sum((up - dn) * dP[q])                                               # information between rho and the threshold
                    s -= bq * ((c <= q) - ndtr(t[q])) / phi(t[q])
            psi[k] = s / D
        V = psi @ psi.T / n - np.outer(psi.mean(1), psi.mean(1))
        scale = n if nm == "second generation" else 1
        cx.closen(f"{nm}: covariance of the estimates", m.acov * scale, V, 1e-5, 1e-8)
        if nm == "second generation":
            cx.closen("second generation: loop and matrix forms of the covariance agree", m.get_acov_loop(), m.acov, 1e-8, 1e-14)
            cx.close("second generation: standard errors", m.rho_se, np.sqrt(np.diag(m.acov)), 1e-12, 0)
            cx.close("second generation: unit diagonal", np.diag(m.R_hat), 1, 0, 0)
            for k, (a, b) in enumerate(m.inds1):
                cx.close("second generation: matrix holds the correlations", [m.R_hat[a, b], m.R_hat[b, a]], [rh[k]] * 2, 0, 0)
            cx.close("second generation: table of estimates", m.res.iloc[:, 0].values, rh, 0, 0)
            cx.ok("second generation: labels", list(m.res.index) == [f"r(x{a}, x{b})" for a, b in m.inds1])
            # reorder to lexicographic pairs
            if p > 2:
                lex = [(a, b) for a in range(p) for b in range(a + 1, p)]
                colex = [(a, b) for b in range(p) for a in range(b)]
                ix = [colex.index(q) for q in lex]
                cx.close("reordered covariance", polychoric2.convert_acm(m.acov, p), m.acov[np.ix_(ix, ix)], 0, 0)
                cx.close("reordered covariance (first generation)", polychoric.convert_acm(m.acov, p), m.acov[np.ix_(ix, ix)], 0, 0)
            tt = polychoric2.threshold_dict_to_array(m.tauc)
            for q in range(p):
                cx.close("thresholds as an array", tt[q, :len(m.tauc[q])], inner(X[:, q]), 1e-12, 1e-14)
        # thresholds and correlation together
        m = C(df)
        a, b = m.inds1[int(rng.integers(len(m.inds1)))]
        T, ta, tb, f = oracle(X[:, a], X[:, b])
        k = m.II_ind[a, b]
        m.opt_res, m._opt = {}, np.zeros((m.p2, 6))
        quiet(m._fit, a, b, "fml")
        x = np.asarray(m.params[k])
        na = len(ta)
        F = lambda z: nll(T, cells(z[:na], z[na:-1], z[-1]))
        G, e = nderiv(lambda z: np.array([F(z)]), x, scale=.02)
        cx.ok(f"{nm}: joint fit is stationary", np.abs(np.ravel(G)).max() < 1e-3 * np.sqrt(n) + 10 * np.max(e), float(np.abs(G).max()))
        cx.ok(f"{nm}: joint fit is at least as likely", F(x) <= F(np.r_[ta, tb, hat[a, b]]) + 1e-6)
        cx.ok(f"{nm}: joint thresholds increase", (np.diff(x[:na]) > 0).all() and (np.diff(x[na:-1]) > 0).all() and abs(x[-1]) < 1)


@workload("missing values", quick=16, thorough=400, timeout=400)
def w_missing(cx):
    from pystatsm.pylvcorr import lvcorr
    rng = cx.rng
    p = int(rng.integers(2, 5))
    X, R, Z = gen(cx, p, n=int(rng.integers(150, 500)))
    M = rng.random(X.shape) < .12
    X[M] = np.nan
    df = pd.DataFrame(X)
    r = float(rng.uniform(-.7, .7))
    i, j = [int(v) for v in rng.choice(p, 2, replace=False)]
    ok = ~(np.isnan(X[:, i]) | np.isnan(X[:, j]))
    lv = [np.unique(X[~np.isnan(X[:, q]), q]) for q in range(p)]
    if any(len(v) < 2 for v in lv) or len(np.unique(X[ok, i])) < 2 or len(np.unique(X[ok, j])) < 2:
        cx.skip("single category")
    full = len(np.unique(X[ok, i])) == len(lv[i]) and len(np.unique(X[ok, j])) == len(lv[j])
    cx.case((p, full), r=r, n=len(X))
    mc = lvcorr.PolychoricCorr(df)
    T, ta, tb, f = oracle(X[ok, i], X[ok, j])
    cx.close("all pairs: complete pairs are used", f0(mc.loglike(r, i, j)), f(r), 1e-9, 1e-9)
    mp = lvcorr.Polychoric(df)
    a, b = [(a, b) for a, b in mp.IJ_ind if {a, b} == {i, j}][0]
    T = np.array([[np.sum(ok & (X[:, a] == u) & (X[:, b] == v)) for v in lv[b]] for u in lv[a]], float)
    ta, tb = inner(X[~np.isnan(X[:, a]), a]), inner(X[~np.isnan(X[:, b]), b])
    cx.close("shared thresholds: thresholds of all values, table of complete pairs", f0(mp.loglike(r, a, b)), nll(T, cells(ta, tb, r)), 1e-9, 1e-9)
    g = lambda z: nll(T, cells(ta, tb, z[0]))
    cx.deriv("shared thresholds: gradient with missing values", np.atleast_1d(f0(mp.gradient(r, a, b))), g, np.array([r]), 2e-6, 1e-5 * len(X) ** .5, .03)


@workload("polyserial", quick=30, thorough=900, timeout=300)
def w_polyserial(cx):
    from pystatsm.pylvcorr import lvcorr, statfuncs as sf
    rng = cx.rng
    n = int(rng.integers(60, 500))
    X, R, Z = gen(cx, 2, n=n)
    x = Z[:, 0] * rng.choice([1., 5., .01]) + rng.choice([0., 100.])
    y = X[:, 1]
    codes = rng.choice([0, 1, 2])
    yl = y if codes == 0 else y + 3 if codes == 1 else y * 10 - 7
    r = float(rng.uniform(-.9, .9))
    cx.case((len(np.unique(y)), abs(r) > .6, int(codes), x.std() > 2), r=r, n=n)
    z = (x - x.mean()) / x.std()
    t = np.r_[-np.inf, inner(y), np.inf]
    c = np.unique(y, return_inverse=True)[1]

    def cell(r):
        s = np.sqrt(1 - r * r)
        u, l = (t[c + 1] - r * z) / s, (t[c] - r * z) / s
        flip = l > 0
        return np.where(flip, ndtr(-l) - ndtr(-u), ndtr(u) - ndtr(l))
    f = lambda r: -np.sum(np.log(cell(float(np.ravel(r)[0]))))
    m = lvcorr.Polyserial(x, yl)
    if cell(r).min() > 1e-9:
        cx.close("probabilities", np.ravel(m.prob(r)), cell(r), 1e-6, 1e-13)
        cx.close("objective is the negative log-likelihood", f0(m.loglike(r)), f(r), 1e-7, 1e-9)
        cx.deriv("gradient", np.atleast_1d(f0(m.gradient(r))), f, np.array([r]), 1e-5, 1e-5 * n ** .5, .02)
        w, _ = nderiv(lambda v: np.array([f0(m.gradient(v[0]))]), np.array([r]), scale=.02)
        cx.close("Hessian", f0(m.hessian(r)), f0(w), 2e-3, 1e-3 * n)
    quiet(m.fit)
    rh = f0(m.rho_hat)
    if abs(rh) > .985:
        cx.skip("boundary")
    cx.ok("correlation lies strictly between -1 and 1", abs(rh) < 1)
    G, e = nderiv(lambda v: np.array([f(v)]), np.array([rh]), scale=.01)
    H, _ = nderiv(lambda v: np.array([f0(m.gradient(v[0]))]), np.array([rh]), scale=.01)
    se = 1 / np.sqrt(f0(H))
    cx.ok("fitted correlation is stationary", abs(f0(G)) * se < 1e-3 + 10 * se * f0(e), f0(G) * se)
    cx.close("standard error is the inverse root of the Hessian", f0(m.se_rho), se, 5e-3, 0)
    m2 = lvcorr.Polyserial(x, -yl)
    quiet(m2.fit)
    cx.ok("reversing the categories changes the sign", abs(f0(m2.rho_hat) + rh) < 2e-3 * se)
    m3 = lvcorr.Polyserial(-3. * x + 4, y)
    quiet(m3.fit)
    cx.ok("location and scale of the continuous variable do not matter", abs(f0(m3.rho_hat) + rh) < 2e-3 * se)
    order = dict(zip(np.unique(y), range(len(np.unique(y)))))
    tau = np.r_[-1e6, inner(y), 1e6]
    if cell(r).min() > 1e-9:
        cx.close("function form of the objective", f0(sf.polyserial_ll(r, z, y, tau, order)), f(r), 1e-7, 1e-9)
