"""C24: M-estimators, robust regression and robust dispersion estimators."""
import contextlib
import io
import warnings
import numpy as np
import pandas as pd
from scipy.integrate import quad
from scipy.special import ndtr, ndtri
from vlib.mon import workload, nderiv


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def pdf(x):
    return np.exp(-.5 * x * x) / np.sqrt(2 * np.pi)


def functions(kind, c):
    """loss, influence, curvature, weight by definition; the influence is the loss' derivative times k"""
    if kind == "huber":
        return (lambda x: np.where(np.abs(x) <= c, x * x / 2, c * (np.abs(x) - c / 2)), lambda x: np.clip(x, -c, c), lambda x: (np.abs(x) <= c) * 1., 1.)
    rho = lambda x: np.where(np.abs(x) <= c, 1 - (1 - np.minimum((x / c) ** 2, 1)) ** 3, 1.)
    psi = lambda x: np.where(np.abs(x) <= c, x * (1 - (x / c) ** 2) ** 2, 0.)
    phi = lambda x: np.where(np.abs(x) <= c, (1 - (x / c) ** 2) * (1 - 5 * (x / c) ** 2), 0.)
    return rho, psi, phi, c * c / 6


def ev(f, c):
    h = lambda x: f(np.array([x]))[0] * pdf(x)
    return sum(quad(h, a, b, epsabs=1e-13, epsrel=1e-12, limit=200)[0] for a, b in ((-12., -min(c, 11)), (-min(c, 11), 0), (0, min(c, 11)), (min(c, 11), 12.)))


@workload("loss functions", quick=80, thorough=3000, timeout=200)
def w_loss(cx):
    from pystatsm.pyrobust import m_estimators as me
    rng = cx.rng
    kind = str(rng.choice(["huber", "bisquare"]))
    c = float(rng.choice([1., 1.345, 1.54764, 2., 4.685, 8.]) * rng.uniform(.8, 1.2))
    C = me.Huber if kind == "huber" else me.Bisquare
    dflt = rng.random() < .3
    how = int(rng.integers(3))
    M = C() if dflt else C(c=c) if how else C(c)
    if dflt:
        c = 1.345 if kind == "huber" else 4.685
    args = ()
    if not dflt and how == 2:
        M, args = C(), (c,)                     # constant given at the call
    rho, psi, phi, K = functions(kind, c)
    form = str(rng.choice(["floats", "integers", "matrix", "edge"]))
    x = {"floats": rng.standard_cauchy(40), "integers": rng.integers(-6, 7, size=30), "matrix": rng.normal(size=(5, 4)) * 3,
         "edge": np.array([0., c, -c, np.nextafter(c, 9e9), np.nextafter(c, 0), 1e8, -1e8, 1e-9])}[form]
    cx.case((kind, form, dflt, how), c=c)
    xf = np.asarray(x, float)
    keep = x.copy()
    cx.close("loss", M.rho(x, *args), rho(xf), 1e-10, 1e-12)
    cx.close("influence", M.psi(x, *args), psi(xf), 1e-10, 1e-12)
    off = np.abs(np.abs(xf) - c) > 1e-9
    cx.close("curvature", np.asarray(M.phi(x, *args))[off], phi(xf)[off], 1e-10, 1e-12)
    nz = xf != 0
    cx.close("weight is influence over argument", np.asarray(M.weights(x, *args))[nz], psi(xf[nz]) / xf[nz], 1e-8, 1e-12)
    cx.close("weight at zero", np.ravel(M.weights(np.zeros(2), *args)), 1, 1e-14, 0)
    cx.close("the loss is even", M.rho(-x, *args), M.rho(x, *args), 0, 0)
    cx.close("arguments stay", x, keep, 0, 0)
    for d in (0, 1, 2):
        w = (rho(xf), psi(xf) / K, phi(xf) / K)[d]
        sel = off if d == 2 else np.ones_like(off)
        cx.close(f"normalised derivative {d}", np.asarray(M.chi(x, d, *args))[sel], w[sel], 1e-10, 1e-12)
    z = xf[(np.abs(np.abs(xf) - c) > .05) & (np.abs(xf) < 50)]
    for v in z[:6]:
        D, e = nderiv(lambda t: float(np.ravel(M.rho(np.array([t[0]]), *args))[0]), np.array([v]), scale=.02)
        cx.close("influence is the derivative of the loss", float(np.ravel(M.psi(np.array([v]), *args))[0]) / K, float(np.ravel(D)[0]), 1e-6, 1e-7)
        D, e = nderiv(lambda t: float(np.ravel(M.psi(np.array([t[0]]), *args))[0]), np.array([v]), scale=.02)
        cx.close("curvature is the derivative of the influence", float(np.ravel(M.phi(np.array([v]), *args))[0]), float(np.ravel(D)[0]), 1e-6, 1e-7)
    if cx.it % 4 == 0:
        E = quiet
        cx.close("normal expectation of the loss", float(np.ravel(E(M.E_rho, *args))[0]), ev(rho, c), 1e-6, 1e-7)
        cx.close("normal expectation of the influence", float(np.ravel(E(M.E_psi, *args))[0]), 0, 0, 1e-7)
        cx.close("normal expectation of the squared influence", float(np.ravel(E(M.E_psi2, *args))[0]), ev(lambda t: psi(t) ** 2, c), 1e-6, 1e-7)
        cx.close("normal expectation of the curvature", float(np.ravel(E(M.E_phi, *args))[0]), ev(phi, c), 1e-4, 5e-5)


@workload("scale and location", quick=60, thorough=2500, timeout=200)
def w_scale(cx):
    from pystatsm.pyrobust import m_estimators as me
    rng = cx.rng
    n = int(rng.integers(8, 120))
    x = rng.standard_t(3, size=n) * rng.choice([1e-3, 1., 1e4]) + rng.choice([0., 50.])
    if rng.random() < .4:
        k = int(.2 * n)
        x[:k] = x[k:].mean() + 1e3 * x[k:].std() * rng.choice([-1, 1], size=k)
    c = float(rng.uniform(1.3, 2.5))
    M = me.Bisquare(c=c)
    rho = functions("bisquare", c)[0]
    r = x - np.median(x)
    bd = float(rng.choice([.5, .4, .25]))
    cx.case((n < 20, bd, x.std() > 100), n=n, c=c)
    s = quiet(M.m_estimate_scale, r, None, bd, 3000, 1e-14)
    cx.close("scale solves its equation", np.mean(rho(r / s)), bd, 1e-7, 0)
    f = float(rng.choice([-3., .01, 200.]))
    cx.close("scale is equivariant", quiet(M.m_estimate_scale, f * r, None, bd, 3000, 1e-14), abs(f) * s, 1e-8, 0)
    s1 = quiet(M.m_estimate_scale, r, 2 * s, bd, 1, 1e-12)
    cx.close("one step of the fixed point", s1, 2 * s * np.sqrt(np.mean(rho(r / (2 * s))) / bd), 1e-10, 0)
    # location and scale together
    H = me.Huber(c=c) if rng.random() < .5 else M
    v, mu, sd = quiet(me.estimate_simultaneous, x, H, bd, 3000, 1e-13)
    hr, hp = functions("huber" if H is not M else "bisquare", c)[:2]
    u = (x - mu) / sd
    sl = np.sqrt(n) * 1e-4
    if np.isfinite(sd) and sd > 1e-8 * np.abs(r).max():
        cx.ok("location solves its equation", abs(hp(u).sum()) < sl, float(hp(u).sum()))
        cx.close("scale solves its equation too", hr(u).mean(), bd, 1e-3, 0)
        cx.close("reported loss", v, hr(u).sum(), 1e-9, 0)
    hist = quiet(me.estimate_simultaneous, x, H, bd, 40, 1e-13, True)
    cx.ok("history has one entry per step", len(hist[0]) == len(hist[1]) == len(hist[2]))


def pd_(x):
    n = len(x)
    a, b = np.tril_indices(n, -1)
    return np.abs(x[a] - x[b])


def sn_def(x):
    """low median of high medians by sorting"""
    n = len(x)
    hi = np.sort(np.abs(x[:, None] - x[None]), axis=1)[:, n // 2]
    s = 1.1926 * np.sort(hi)[(n + 1) // 2 - 1]
    if n <= 9:
        return s * [.743, 1.851, .954, 1.351, .993, 1.198, 1.005, 1.131][n - 2], hi
    return s * (n / (n - .9) if n % 2 else 1.), hi


@workload("dispersion", quick=200, thorough=12000, timeout=200)
def w_disp(cx):
    from pystatsm.pyrobust import dispersion_estimators as de
    rng = cx.rng
    n = int(rng.integers(2, 14)) if rng.random() < .5 else int(rng.integers(14, 150))
    kind = str(rng.choice(["normal", "ties", "integers", "heavy", "constant mostly", "sorted", "reversed"]))
    x = rng.normal(size=n)
    if kind == "ties":
        x = np.round(x * 2) / 2
    elif kind == "integers":
        x = rng.integers(-5, 6, size=n)
    elif kind == "heavy":
        x = rng.standard_cauchy(n)
    elif kind == "constant mostly":
        x[rng.random(n) < .6] = .25
    elif kind == "sorted":
        x = np.sort(x)
    elif kind == "reversed":
        x = np.sort(x)[::-1].copy()
    cx.case((kind, n if n < 12 else 12 + n % 2), n=n)
    xf = np.asarray(x, float)
    keep = x.copy()
    D = pd_(xf)
    rt = 1e-10
    gm = D.mean() * np.sqrt(np.pi) / 2
    cx.close("mean difference", de.gmd(x), gm, rt, 1e-12)
    cx.close("mean difference (matrix form)", de.gmd2(x), gm, rt, 1e-12)
    cx.close("mean difference (compiled)", np.ravel(de.gmd3(x))[0], gm, rt, 1e-12)
    cx.close("mean difference uncorrected", de.gmd(x, corrected=False), D.mean(), rt, 1e-12)
    X2 = np.c_[xf, xf[::-1] * 2, rng.normal(size=n)]
    cx.close("mean difference of columns", de.gmd3(X2), [pd_(X2[:, k]).mean() * np.sqrt(np.pi) / 2 for k in range(3)], rt, 1e-12)
    h = n // 2 + 1
    k = h * (h - 1) // 2
    q = np.sort(D)[k - 1]
    cq = 1 / (np.sqrt(2) * ndtri(5 / 8))
    cx.close("Qn", de.qn_estimator(x), q * cq, rt, 1e-12)
    cx.close("Qn (matrix form)", de.qn_estimator2(x), q * cq, rt, 1e-12)
    cx.close("Qn uncorrected", de.qn_estimator(x, corrected=False), q, rt, 1e-12)
    s, hi = sn_def(xf)
    got = de.sn(x)
    cx.close("Sn", got[0], s, rt, 1e-12)
    cx.close("Sn: high medians", np.sort(got[1]), np.sort(hi), rt, 1e-12)
    got = de.sn_naive(x)
    cx.close("Sn (quadratic time)", got[0], s, rt, 1e-12)
    cx.close("Sn (quadratic time): high medians in the order of the data", got[1], hi, rt, 1e-12)
    m = np.median(np.median(np.abs(xf[:, None] - xf[None]), axis=1)) * 1.1926
    cx.close("Sn with ordinary medians", de.sn_estimator(x), m, rt, 1e-12)
    cx.close("Sn with ordinary medians (half storage)", de.sn_estimator2(x), m, rt, 1e-12)
    cm = 1 / ndtri(.75)
    cx.close("median absolute deviation", de.mad(x), np.median(np.abs(xf - np.median(xf))) * cm, rt, 1e-12)
    cx.close("median absolute deviation by column", de.mad(X2, axis=0), np.median(np.abs(X2 - np.median(X2, axis=0)), axis=0) * cm, rt, 1e-12)
    cx.close("median absolute deviation by row", de.mad(X2, axis=1), np.median(np.abs(X2 - np.median(X2, axis=1)[:, None]), axis=1) * cm, rt, 1e-12)
    cx.close("the sample stays", x, keep, 0, 0)
    # invariance
    a, b = float(rng.choice([-2., .5, 1e3])), float(rng.normal() * 10)
    ests = (("mean difference", de.gmd), ("Qn", de.qn_estimator), ("Sn", lambda v: de.sn(v)[0]), ("Sn ordinary", de.sn_estimator), ("MAD", de.mad))
    pm = rng.permutation(n)
    for nm, f in ests:
        v = float(np.ravel(f(xf))[0])
        cx.close(f"{nm}: scale equivariant, shift invariant", np.ravel(f(a * xf + b))[0], abs(a) * v, 1e-9, 1e-9 * abs(a))
        cx.close(f"{nm}: order of the sample does not matter", np.ravel(f(xf[pm]))[0], v, 1e-12, 1e-14)
    # contamination of a minority
    if n >= 5 and kind in ("normal", "heavy", "sorted", "reversed"):
        bad = (n - 1) // 2 if n % 2 else n // 2 - 1
        y = xf[pm].copy()
        y[:bad] = 1e9 * (1 + np.arange(bad)) * (1 if rng.random() < .5 else rng.choice([-1, 1], size=bad))
        good = y[bad:]
        lim = 60 * np.abs(good - np.median(good)).max()
        for nm, f in ests[1:]:
            v = float(np.ravel(f(y))[0])
            cx.ok(f"{nm}: bounded under contamination", v < lim, dict(n=n, bad=bad, got=v, limit=lim))
        # far outliers on one spot: no collapse towards zero, either
        if len(np.unique(good)) == len(good) and n >= 9:
            y[:bad] = 1e9
            for nm, f in ests[2:4]:
                cx.ok(f"{nm}: does not collapse under coinciding outliers", float(np.ravel(f(y))[0]) > 0)


def regdata(cx, robust=False):
    rng = cx.rng
    n, p = int(rng.integers(40, 150)), int(rng.integers(1, 4))
    X = rng.normal(size=(n, p)) * rng.choice([.5, 1., 4.], size=p)
    b = rng.normal(size=p + 1)
    e = rng.standard_t(float(rng.choice([2., 4., 30.])), size=n)
    y = np.c_[np.ones(n), X] @ b + e
    if rng.random() < .4 or robust:
        k = int(.12 * n)
        y[rng.choice(n, k, replace=False)] += rng.choice([20., 200.])
    df = pd.DataFrame(X, columns=[f"x{i}" for i in range(p)])
    df["y"] = y
    return df, "y ~ " + " + ".join(f"x{i}" for i in range(p)), np.c_[np.ones(n), X], y, b


@workload("regression", quick=40, thorough=1500, timeout=300)
def w_reg(cx):
    from pystatsm.pyrobust import rls
    rng = cx.rng
    df, fo, X, y, b = regdata(cx)
    n, p = X.shape
    dflt = rng.random() < .4
    c = 1.345 if dflt else float(rng.uniform(1.2, 2.5))
    cx.case((p, dflt, n > 80), c=c, n=n)
    m = rls.RobustLM(fo, df) if dflt else rls.RobustLM(fo, df, c=c)
    rho, psi, phi, _ = functions("huber", c)
    # the objective and its derivatives anywhere
    th = np.r_[b + .1 * rng.normal(size=p), rng.normal() * .3]
    f = lambda t: np.sum(np.exp(t[-1]) * (rho((y - X @ t[:-1]) / np.exp(t[-1])) + .5))
    cx.close("objective", m.rho(th), f(th), 1e-10, 0)
    u = (y - X @ th[:-1]) / np.exp(th[-1])
    if np.abs(np.abs(u) - c).min() > 2e-5 * c:
        cx.deriv("gradient", m.grad(th), f, th, 1e-5, 1e-5 * n, 1e-3)
        G = lambda t: np.r_[-X.T @ psi((y - X @ t[:-1]) / np.exp(t[-1])), np.sum(rho((y - X @ t[:-1]) / np.exp(t[-1])) - psi((y - X @ t[:-1]) / np.exp(t[-1])) * (y - X @ t[:-1]) / np.exp(t[-1]) + .5) * np.exp(t[-1])]
        cx.closen("gradient formula", m.grad(th), G(th), 1e-10, 1e-10)
        s = np.exp(th[-1])
        A = (X * phi(u)[:, None]).T @ X / s
        B = X.T @ (phi(u) * u)
        cc = s * np.sum(phi(u) * u ** 2 + rho(u) - psi(u) * u + .5)
        cx.closen("Hessian", m.hessian(th), np.block([[A, B[:, None]], [B[None], np.array([[cc]])]]), 1e-10, 1e-10)
    okw = dict(options=dict(gtol=1e-9, xtol=1e-14, maxiter=2000))
    quiet(m.fit, okw)
    t = np.r_[m.beta, np.log(m.scale)]
    s = m.scale
    u = (y - X @ m.beta) / s
    sx = np.sqrt((X ** 2).sum(0))
    cx.ok("coefficients solve their equation", np.abs(X.T @ psi(u) / sx).max() < 1e-3, float(np.abs(X.T @ psi(u) / sx).max()))
    cx.ok("scale solves its equation", abs(np.mean(rho(u) - psi(u) * u) + .5) < 1e-4, float(np.mean(rho(u) - psi(u) * u) + .5))
    cx.close("residuals", m.resids, y - X @ m.beta, 1e-12, 1e-10)
    # standard errors of Huber's three forms
    ps, ph = psi(u) * s, phi(u)
    E2, E1 = (ps ** 2).sum() / (n - p), ph.mean()
    k = 1 + p / n * ph.var() / E1 ** 2
    XtX = X.T @ X
    W = np.linalg.inv((X * ph[:, None]).T @ X)
    for nm, got, want in (("first", m.H1, k ** 2 * E2 / E1 ** 2 * np.linalg.inv(XtX)), ("second", m.H2, k * E2 / E1 * W), ("third", m.H3, E2 / k * W @ XtX @ W)):
        cx.closen(f"covariance, {nm} form", got, want, 1e-8, 0)
    R = m.res
    cx.close("table: estimates", R["beta"].values, m.beta, 0, 0)
    cx.close("table: standard errors", R[["SE1", "SE2", "SE3"]].values, np.sqrt(np.c_[np.diag(m.H1), np.diag(m.H2), np.diag(m.H3)]), 1e-12, 0)
    import scipy.stats as ss
    tv = R[["t1", "t2", "t3"]].values
    cx.close("table: t statistics", tv, m.beta[:, None] / R[["SE1", "SE2", "SE3"]].values, 1e-12, 0)
    cx.close("table: p-values", R[["p1", "p2", "p3"]].values, 2 * ss.t.sf(np.abs(tv), n - p), 1e-9, 1e-300)
    r0, r1 = rho((y - np.median(y)) / s).sum(), rho(u).sum()
    st = m.sumstats.iloc[:, 0]
    cx.close("robust r-squared", st["r2"], (r0 - r1) / r0, 1e-9, 0)
    cx.close("robust deviance", st["dev"], 2 * s * s * r1, 1e-9, 0)
    cx.close("robust AIC", st["AICr"], 2 * r1 + 2 * p * (psi(u) ** 2).sum() / (n - p) / E1, 1e-9, 0)
    cx.close("robust BIC", st["BICr"], 2 * r1 + p * np.log(n), 1e-9, 0)
    # equivariance
    a, g = float(rng.choice([-2., .1, 30.])), rng.normal(size=p)
    d2 = df.assign(y=a * y + X @ g)
    m2 = rls.RobustLM(fo, d2, c=c)
    quiet(m2.fit, okw)
    se = np.sqrt(np.diag(m.H1))
    cx.ok("regression equivariance of the coefficients", np.abs((m2.beta - (a * m.beta + g)) / (abs(a) * se)).max() < 1e-3, dict(got=m2.beta.tolist(), want=(a * m.beta + g).tolist()))
    cx.close("scale equivariance", m2.scale, abs(a) * s, 1e-3, 0)
    if np.abs(np.abs(u) - c).min() > 1e-3:
        cx.close("standard errors are equivariant", m2.se_beta, abs(a) * m.se_beta, 1e-2, 0)
    # iteratively reweighted least squares: Huber's equation at a MAD scale, or Huber's proposal 2
    for sc in ("mad", "proposal2"):
        m3 = rls.RobustLM(fo, df, c=c)
        t3, h = quiet(m3.irwls, sc, None, 3000, 1e-13)
        s3 = np.exp(t3[-1])
        r3 = y - X @ t3[:-1]
        if len(h) and len(h) < 2998:
            cx.ok(f"{sc}: coefficients solve their equation", np.abs(X.T @ psi(r3 / s3) / sx).max() < 1e-4, float(np.abs(X.T @ psi(r3 / s3) / sx).max()))
            if sc == "mad":
                cx.close("mad: scale of the residuals", s3, np.median(np.abs(r3 - np.median(r3))) / ndtri(.75), 1e-5, 0)
            else:
                e2 = ev(lambda v: psi(v) ** 2, c)
                cx.close("proposal 2: scale solves its equation", (psi(r3 / s3) ** 2).sum() / (n - p), e2, 2e-4, 0)
        else:
            cx.note("reweighting did not settle")


@workload("high breakdown regression", quick=20, thorough=500, timeout=300)
def w_slm(cx):
    from pystatsm.pyrobust import rls
    rng = cx.rng
    df, fo, X, y, b = regdata(cx)
    n, p = X.shape
    e = rng.normal(size=n) * .5
    y = X @ b + e
    eps = float(rng.choice([0., .15, .3]))
    k = int(eps * n)
    bad = rng.choice(n, k, replace=False)
    lev = rng.random() < .5 and p > 1
    if lev:
        X[bad, 1] += 30.
        df.loc[bad, "x0"] += 30.
    y[bad] = (X @ b)[bad] + float(rng.choice([50., 1e4, 1e7])) * rng.choice([-1, 1])
    df["y"] = y
    cx.case((p, eps, lev), n=n)
    c = 1.56 if rng.random() < .5 else 1.54764
    m = rls.RobustSLM(fo, df, c=c)
    s, be = quiet(m.fit, n_iters=120, rng=np.random.default_rng(7))
    rho, psi, _, _ = functions("bisquare", c)
    r = y - X @ be
    good = np.setdiff1d(np.arange(n), bad)
    ref = np.linalg.lstsq(X[good], y[good], rcond=None)[0]
    cov = np.linalg.inv(X[good].T @ X[good]) * .25
    d = np.abs(be - ref) / np.sqrt(np.diag(cov))

    def scale_of(v):
        q = np.median(np.abs(v)) * 1.5
        for _ in range(2000):
            q = q * np.sqrt(np.mean(rho(v / q)) / .5)
        return q
    s0 = scale_of(y - X @ ref)
    cx.ok("the scale is no larger than that of the clean fit", s < 1.002 * s0, dict(got=s, clean=s0))
    cx.close("the scale is that of its coefficients", s, scale_of(r), 2e-3, 0)
    if s < .995 * s0:
        cx.note("a better optimum than the clean fit")
        d = d * 0
    cx.ok("gross errors do not move the fit away from the good majority", d.max() < 12, dict(got=be.tolist(), want=ref.tolist(), eps=eps))
    cx.close("scale equation", np.mean(rho(r / s)), .5, 2e-3, 0)
    w = psi(r / s)
    g = np.abs(X.T @ w) / np.sqrt((X[good] ** 2).sum(0))
    cx.ok("coefficients solve their equation", g.max() < 1e-2, float(g.max()))
    a, gm = float(rng.choice([-2., .1, 30.])), rng.normal(size=p)
    m2 = rls.RobustSLM(fo, df.assign(y=a * y + X @ gm), c=c)
    s2, b2 = quiet(m2.fit, n_iters=120, rng=np.random.default_rng(7))
    if abs(s2 - abs(a) * s) < 1e-3 * s * abs(a):
        cx.ok("equivariance of the coefficients", np.abs(b2 - (a * be + gm)).max() / abs(a) < 2e-2 * np.abs(np.sqrt(np.diag(cov))).max() + 1e-7 * np.abs(y).max() / 1e4, dict(got=b2.tolist(), want=(a * be + gm).tolist()))
    else:
        cx.ok("equivariance of the scale", abs(s2 - abs(a) * s) < .05 * s * abs(a), dict(got=s2, want=abs(a) * s))
    s3, b3 = quiet(rls.RobustSLM(fo, df, c=c).fit, n_iters=120, rng=np.random.default_rng(7))
    cx.close("the same seed gives the same fit", np.r_[s3, b3], np.r_[s, be], 0, 0)
