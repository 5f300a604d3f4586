"""C27 sinh-arcsinh and skew-normal distributions."""
import itertools, warnings
import numpy as np
import scipy.special as sc
import scipy.stats
from scipy.integrate import quad
from vlib.mon import workload

from pystatsm.misc import sash, shash1, shashr, skewnorm_dist as sn
from pystatsm.utilities.indexing_utils import fill_tensor

LN2PI = np.log(2 * np.pi)


def sh_logpdf(y, m, s, v, t):
    """sinh-arcsinh log density (nu skewness, tau tail weight), written for the tails"""
    z = (y - m) / s
    a = t * np.arcsinh(z) - v
    logc = np.abs(a) + np.log1p(np.exp(-2 * np.abs(a))) - np.log(2)
    return np.log(t) - np.log(s) - .5 * np.log1p(z * z) + logc - .5 * np.sinh(a) ** 2 - .5 * LN2PI


def sn_logpdf(y, m, s, v):
    z = (y - m) / s
    return np.log(2) - .5 * LN2PI - .5 * z * z - np.log(s) + sc.log_ndtr(v * z)


def pars(rng, kind="plain"):
    s = 10 ** rng.uniform(-2, 2)
    m = rng.normal() * s * (10 ** rng.uniform(0, 6) if rng.random() < .3 else 1)
    return m, s, rng.normal() * rng.choice([.3, 1.5]), np.exp(rng.normal() * .5)


DIST = {}
DIST["sash"] = dict(lp=lambda y, p: sash._logpdf(y, *p), pdf=lambda y, p: sash._pdf(y, *p), cdf=lambda y, p: sash._cdf(y, *p),
                    qtf=lambda q, p: sash._qtf(q, *p), ref=lambda y, p: sh_logpdf(y, *p), tr=lambda p: p,
                    d=[lambda y, p: sash.SASH.loglike(y, *p), lambda y, p: sash.SASH.d1loglike(y, *p), lambda y, p: sash.SASH.d2loglike(y, *p),
                       lambda y, p: sash.SASH.d3loglike(y, *p), lambda y, p: sash.SASH.d4loglike(y, *p)], order=[0, 1, 2, 3],
                    rvs=lambda r, p, n: sash._rvs(r, *p, size=n))


def _mk(mod, log):
    tr = (lambda p: (p[0], np.log(p[1]), p[2], np.log(p[3]))) if log else (lambda p: p)
    un = (lambda p: (p[0], np.exp(p[1]), p[2], np.exp(p[3]))) if log else (lambda p: p)
    lp = lambda y, p: mod.logpdf(y, m=p[0], s=p[1], v=p[2], t=p[3])

    def dk(k):
        def f(y, p):
            if k == 0:
                return lp(y, p)
            return mod.logpdf(y, params=[p[0], p[1], p[3], p[2]], derivs=k)[k]
        return f
    return dict(lp=lp, pdf=lambda y, p: mod.pdf(y, *p), cdf=lambda y, p: mod.cdf(y, *p), qtf=lambda q, p: mod.inverse_cdf(q, *p),
                ref=lambda y, p: sh_logpdf(y, *un(p)), tr=tr, d=[dk(k) for k in range(5)], order=[0, 1, 3, 2],
                rvs=lambda r, p, n: mod.rvs(*p, size=n, rng=r), mod=mod, un=un)


DIST["shash1"] = _mk(shash1, False)
DIST["shashr"] = _mk(shashr, True)


def probs(rng, k):
    return np.clip(np.concatenate([rng.random(k), 10. ** rng.uniform(-14, -2, 2), 1 - 10. ** rng.uniform(-12, -2, 2)]), 1e-300, 1 - 1e-16)


@workload("sinh-arcsinh distributions", quick=150, thorough=3000, shards=2)
def w_shash(cx):
    rng = cx.rng
    name = str(rng.choice(list(DIST)))
    D = DIST[name]
    th = pars(rng)
    p = D["tr"](th)
    m, s, v, t = th
    q = probs(rng, 6)
    y = m + s * np.sinh((np.arcsinh(sc.ndtri(q)) + v) / t)
    cx.case((name, abs(v) > 1, t > 1, abs(m / s) > 30), params=th)
    # density, distribution function, quantiles
    big = abs(m / s)
    cx.close("log density", D["lp"](y, p), D["ref"](y, p), 1e-9, 1e-9 + 1e-13 * big * (1 + (1 + t) * np.sinh(np.abs(np.arcsinh(sc.ndtri(q)))) ** 2))
    cx.close("density is the exponential of the log density", D["pdf"](y, p), np.exp(D["ref"](y, p)), 1e-7 + 1e-11 * big, 1e-300)
    cx.close("quantiles", D["qtf"](q, p), y, 1e-9, 1e-9 * s * (1 + 1e-4 * big))
    g = y[(q > 1e-10) & (q < 1 - 1e-8)]
    cx.close("quantile of the distribution function", D["qtf"](D["cdf"](g, p), p), g, 1e-6, 1e-6 * s * (1 + 1e-4 * big))
    cx.close("distribution function of the quantile", D["cdf"](y, p), q, 1e-6 + 1e-10 * big, 0)
    a, b = np.sort(y[:2])
    if b - a > 1e-9 * s:
        I = quad(lambda x: D["pdf"](x, p), a, b, epsabs=0, epsrel=1e-9, limit=200)[0]
        cx.close("distribution function is the integral of the density", float(D["cdf"](b, p) - D["cdf"](a, p)), I, 1e-6, 1e-9)
    w = np.concatenate([-np.array([8, 4., 2, 1]), [0], [1, 2, 4, 8.]])
    kn = m + s * np.sinh((np.arcsinh(w) + v) / t)
    tot = sum(quad(lambda x: D["pdf"](x, p), kn[i], kn[i + 1], epsrel=1e-8, limit=100)[0] for i in range(8))
    cx.close("density integrates to one", tot, 1., 1e-6, 0)
    # scalars behave as arrays
    cx.close("scalar argument", float(D["lp"](float(y[0]), p)), float(np.asarray(D["lp"](y, p))[0]), 1e-12, 1e-12)
    if "mod" in D:
        mod = D["mod"]
        x, wg = np.polynomial.hermite_e.hermegauss(160)
        # moments by quadrature of the normal scale
        h = np.linspace(-12, 12, 4001)
        f = np.exp(-h * h / 2) / np.sqrt(2 * np.pi) * (h[1] - h[0])
        z = np.sinh((np.arcsinh(h) + v) / t)
        M = [np.sum(f * z ** k) for k in range(5)]
        mu, va = M[1], M[2] - M[1] ** 2
        c3 = np.sum(f * (z - mu) ** 3)
        c4 = np.sum(f * (z - mu) ** 4)
        if t > .45:
            cx.close("mean", mod.mean(*p), m + s * mu, 1e-7, 1e-7 * s)
            cx.close("median", mod.median(*p), m + s * np.sinh(v / t), 1e-9, 1e-9 * s)
            cx.close("variance", mod.variance(*p), s * s * va, 1e-6, 0)
            cx.close("skewness", mod.skew(*p), c3 / va ** 1.5, 1e-5, 1e-5 + 1e-12 * big ** 3)
            cx.close("kurtosis", mod.kurt(*p), c4 / va ** 2, 1e-5, 1e-5 + 1e-11 * big ** 4)
            mm = mod.moments(*p)
            x_ = m + s * z
            cx.close("raw moments", np.array(mm), [np.sum(f * x_ ** k) for k in range(1, 5)], 1e-6, 1e-7 * np.array([s ** k for k in range(1, 5)]))
            if hasattr(mod, "skewness"):
                cx.close("skewness (central formula)", mod.skewness(*p), c3 / va ** 1.5, 1e-5, 1e-5)
                cx.close("excess kurtosis", mod.excess_kurtosis(*p), c4 / va ** 2 - 3, 1e-5, 1e-5)


@workload("sinh-arcsinh derivatives", quick=90, thorough=1500, shards=3)
def w_shder(cx):
    rng = cx.rng
    name = str(rng.choice(list(DIST)))
    D = DIST[name]
    th = pars(rng)
    p = np.array(D["tr"](th))
    m, s, v, t = th
    q = probs(rng, 4)
    tail = rng.random() < .3
    zq = sc.ndtri(q)
    if tail:
        zq = zq * rng.uniform(1, 20)
    y = m + s * np.sinh((np.arcsinh(zq) + v) / t)
    cx.case((name, tail, abs(v) > 1, t > 1), params=th)
    derivs_check(cx, D["d"], D["order"], y, p, 4, s, D["tr"] is not None and name == "shashr")


def derivs_check(cx, d, order, y, p, nmax, s, logs=False, ref=None):
    """order k+1 against central differences of order k, in standardised units; both packed lexicographically"""
    n = len(p)
    # scale of each parameter
    sc_ = np.ones(n)
    sc_[0] = s
    if not logs:
        sc_[1] = s
    if n == 4 and not logs:
        sc_[3] = p[3]
    sco = sc_[order]
    for k in range(nmax):
        idx0 = list(itertools.combinations_with_replacement(range(n), k))
        idx1 = list(itertools.combinations_with_replacement(range(n), k + 1))
        got = np.asarray(d[k + 1](y, tuple(p)))
        cx.ok(f"shape of order {k + 1}", got.shape == (len(y), len(idx1)), got.shape)
        lab0 = {ix: i for i, ix in enumerate(idx0)}
        u0 = np.array([np.prod(sco[list(ix)]) if ix else 1. for ix in idx0])
        u1 = np.array([np.prod(sco[list(ix)]) for ix in idx1])
        if k == 0:
            f0 = lambda pp: np.asarray(d[0](y, tuple(pp)))[:, None]
        else:
            f0 = lambda pp: np.asarray(d[k](y, tuple(pp)))
        J, E = [], []
        for a in range(n):
            e = np.zeros(n)
            # Richardson extrapolated central difference, error estimate from two steps
            vals = []
            for h in (2e-3, 1e-3, 5e-4):
                e[order[a]] = h * sco[a]
                vals.append((f0(p + e) - f0(p - e)) / (2 * h) * u0)
            r1, r2 = (4 * vals[1] - vals[0]) / 3, (4 * vals[2] - vals[1]) / 3
            J.append((16 * r2 - r1) / 15)
            E.append(np.abs(r2 - r1))
        J, E = np.stack(J), np.stack(E)                    # (a, obs, packed k)
        G = got * u1
        scale = np.abs(G).max(1, keepdims=True) + 1
        for j, ix in enumerate(idx1):
            for pos in sorted(set(ix)):
                rest = list(ix)
                rest.remove(pos)
                i0 = lab0[tuple(rest)]
                want, err = J[pos][:, i0], E[pos][:, i0]
                good = err < 1e-3 * scale[:, 0]
                if not np.all(good):
                    cx.note("difference quotient not resolved", int((~good).sum()))
                cx.ok(f"derivatives of order {k + 1}", np.all(np.isfinite(G[:, j])) and np.all(np.abs(G[:, j] - want)[good] <= (1e-5 * scale[:, 0] + 3 * err)[good]),
                      lambda: (ix, G[:, j], want))


@workload("skew-normal distribution", quick=90, thorough=1500, shards=2)
def w_sn(cx):
    rng = cx.rng
    s = 10 ** rng.uniform(-2, 2)
    m = rng.normal() * s * 3
    v = rng.normal() * rng.choice([1., 3.]) if rng.random() > .1 else 0.
    tail = rng.random() < .4
    z = rng.normal(size=6) * (rng.uniform(1, 8) if tail else 1)
    z = np.where(v * z < -20, -20 / v if v else 0, z)       # beyond that fourth derivatives lose all digits
    y = m + s * z
    cx.case((abs(v) > 2, v == 0, tail, v > 0), params=(m, s, v))
    p = (m, s, v)
    cx.close("log density", sn._logpdf(y, *p), sn_logpdf(y, *p), 1e-9, 1e-9)
    tot = sum(quad(lambda x: np.exp(sn._logpdf(m + s * x, *p)) * s, a, b, epsrel=1e-9, limit=200)[0] for a, b in zip(range(-12, 12), range(-11, 13)))
    cx.close("density integrates to one", tot, 1., 1e-7, 0)
    h = np.linspace(-12, 12, 24001)
    f = np.exp(sn_logpdf(h, 0, 1, v)) * (h[1] - h[0])
    mu = np.sum(f * h)
    va = np.sum(f * (h - mu) ** 2)
    cx.close("mean", sn._mean(*p), m + s * mu, 1e-7, 1e-7 * s)
    cx.close("variance", sn._variance(*p), s * s * va, 1e-7, 0)
    cx.close("skewness", sn._skewness(*p), np.sum(f * (h - mu) ** 3) / va ** 1.5, 1e-6, 1e-6)
    d = [lambda y, p: sn._logpdf(y, *p), lambda y, p: sn._d1logpdf(y, *p), lambda y, p: sn._d2logpdf(y, *p),
         lambda y, p: sn._d3logpdf(y, *p), lambda y, p: sn._d4logpdf(y, *p)]
    derivs_check(cx, d, [0, 1, 2], y, np.array(p), 4, s)
    S = sn.SkewNorm
    for nm, f in (("loglike", sn._logpdf), ("d1loglike", sn._d1logpdf), ("d2loglike", sn._d2logpdf), ("d3loglike", sn._d3logpdf), ("d4loglike", sn._d4logpdf)):
        cx.close("class methods are the functions", getattr(S, nm)(y, *p), f(y, *p), 1e-12, 1e-12)


@workload("random draws", quick=60, thorough=900, shards=2)
def w_rvs(cx):
    rng = cx.rng
    name = str(rng.choice(list(DIST) + ["skewnorm"]))
    n = 4000
    seed = int(rng.integers(1 << 30))
    if name == "skewnorm":
        s, v = 10 ** rng.uniform(-1, 1), rng.normal() * 3
        m = rng.normal() * 5
        cx.case((name, abs(v) > 2))
        y = sn._rvs(n, m, s, v, rng=np.random.default_rng(seed))
        y2 = sn._rvs(n, m, s, v, rng=np.random.default_rng(seed))
        u = scipy.stats.skewnorm.cdf(y, v, m, s)
    else:
        D = DIST[name]
        th = pars(rng)
        p = D["tr"](th)
        cx.case((name, abs(th[2]) > 1, th[3] > 1))
        y, y2 = (D["rvs"](np.random.default_rng(seed), p, n) for _ in range(2))
        m, s, v, t = th
        u = sc.ndtr(np.sinh(t * np.arcsinh((y - m) / s) - v))
    cx.ok("same seed, same draws", np.array_equal(y, y2))
    cx.ok("number of draws", np.shape(y) == (n,))
    cx.ok("draws follow the distribution", scipy.stats.kstest(u, "uniform").pvalue > 1e-7)
    cx.ok("draws are independent", abs(np.corrcoef(u[1:], u[:-1])[0, 1]) < 6 / np.sqrt(n))
