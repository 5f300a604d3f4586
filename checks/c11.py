"""C11: ordinal, negative-binomial, zero-inflated and beta regressions against their distributions."""
import contextlib, io
import numpy as np, pandas as pd, scipy as sp, scipy.stats as st
from scipy.special import gammaln
from vlib.mon import workload, nderiv
from vlib.glmo import INV
from pystatsm.pyglm2 import links as l2
from pystatsm.pyglm import links as l1
from pystatsm.pyglm2.clm import CLM, OrderedTransform
from pystatsm.pyglm2.zinf import ZeroInflatedPoisson, ZeroInflatedNBinom
from pystatsm.pyglm.clm import CLM as CLM1
from pystatsm.pyglm.nb2 import NegativeBinomial
from pystatsm.pyglm.zimodels import ZIP
from pystatsm.pyglm.betareg import BetaReg

L2 = dict(logit=l2.LogitLink, probit=l2.ProbitLink, cloglog=l2.CloglogLink, log=l2.LogLink)
L1 = dict(logit=l1.LogitLink, probit=l1.ProbitLink, cloglog=l1.CloglogLink, log=l1.LogLink)


def frame(r, n, p):
    df = pd.DataFrame({f"x{j}": r.normal(size=n) for j in range(p)})
    if p > 1 and r.random() < .5: df["x0"] = r.integers(0, 2, n) * 1.0
    if r.random() < .4: df.index = r.permutation(n) + 7
    return df


def stationary(cx, nll, x, tol=5e-3):
    """Newton decrement in standard-error units, own derivatives; returns the Hessian or skips degenerate optima."""
    S = np.full(len(x), .15); g, _ = nderiv(lambda z: np.array(nll(z)), x, scale=S); g = np.ravel(g); H, _ = nderiv(lambda z: np.ravel(nderiv(lambda q: np.array(nll(q)), z, scale=S)[0]), x, scale=S); H = (H + H.T) / 2; w = np.linalg.eigvalsh(H)
    if w.min() < 1e-6 * max(1, w.max()) or w.min() < 1e-3: cx.skip("information nearly singular")
    C = np.linalg.inv(H); se = np.sqrt(np.diag(C))
    if se.max() > 8: cx.skip("nearly separated data")
    cx.ok("stationary", np.all(np.abs(C @ g) < tol * se), lambda: (g, C @ g / se)); return H, C, se


def info(cx, nl, k, n, got, tol=1e-7): cx.close("information criteria", got, [2 * nl + 2 * k, 2 * nl + 2 * k * n / (n - k - 1), 2 * nl + k * np.log(n), 2 * nl + k * (np.log(n) + 1)], tol)


def sumstats(cx, m, nl, ln, k, n, tol=1e-6):
    S = m.sumstats["Statistic"]; info(cx, nl, k, n, [S[a] for a in ("AIC", "AICC", "BIC", "CAIC")]); cx.close("log-likelihoods", [S["LLF"], S["LLN"], S["LLR"]], [nl, ln, 2 * (ln - nl)], tol, 2e-4); cs = 1 - np.exp(-2 / n * (ln - nl)); cx.close("pseudo R-squared", [S["R2_CS"], S["R2_NK"], S["R2_MC"]], [cs, cs / (1 - np.exp(-2 / n * ln)), 1 - nl / ln], 1e-5, 2e-6)


def table(cx, R, th, se, df): t = th / se; cx.close("table", np.asarray(R.values[:, :4], float), np.c_[th, se, t, 2 * st.t(df).sf(np.abs(t))], 1e-7, 1e-300)


# ---------------------------------------------------------------- ordinal
def clm_p(link, X, c, th, q):
    F = INV[link]; e = th[:q][None] - (X @ th[q:])[:, None]; G = np.c_[np.zeros(len(X)), F(e), np.ones(len(X))]; return G, np.diff(G, axis=1)


def clm_data(r, n=None):
    n = int(r.integers(60, 220)) if n is None else n; p = int(r.integers(1, 4)); k = int(r.integers(2, 6)); link = str(r.choice(["logit", "probit", "cloglog"])); df = frame(r, n, p); X = df.values.copy(); tau = np.sort(r.normal(size=k - 1)) + np.arange(k - 1) * .5 - .25 * (k - 2); b = r.normal(size=p) * .6; _, P = clm_p(link, X, None, np.r_[tau, b], k - 1); u = r.random(n); c = (u[:, None] > np.cumsum(P, 1)[:, :-1]).sum(1)
    lv = np.sort(r.choice(20, k, replace=False)) * 1.0 - 5 if r.random() < .5 else np.arange(k) * 1.0 + 1; df["y"] = lv[c]; c = np.unique(c, return_inverse=True)[1]; return df, X, c, link, p


@workload("ordinal, derivatives", quick=80, thorough=1600, shards=3)
def clmd(cx):
    r = cx.rng; df, X, c, link, p = clm_data(r); n = len(df); q = c.max()
    if q < 1: cx.skip("one category")
    w = r.integers(1, 4, n) * 1.0 if r.random() < .3 else r.uniform(.2, 2, n) if r.random() < .4 else None; m = CLM("y~" + "+".join(df.columns[:-1]), df, weights=w, link=L2[link]); W = np.ones(n) if w is None else w; cx.case([link, int(q), p, w is None, len(np.unique(df.y))])
    th = np.r_[np.sort(r.normal(size=q)) + np.arange(q) * .4, r.normal(size=p) * .4]
    def nlli(t): return -W * np.log(clm_p(link, X, c, t, q)[1][np.arange(n), c])
    if not np.isfinite(nlli(th)).all() or (nlli(th) / W).max() > 9: cx.skip("probability underflow")
    nll = lambda t: nlli(t).sum(); S = np.full(len(th), .1); cx.close("objective", m.loglike(th), nll(th), 1e-9, 1e-8); cx.deriv("gradient", m.gradient(th), lambda z: np.array(nll(z)), th, 1e-6, 1e-6, S); cx.deriv("Hessian", m.hessian(th), m.gradient, th, 1e-6, 1e-6, S); cx.deriv("per-observation scores", m.gradient_i(th), nlli, th, 1e-6, 1e-6, S)
    u = np.r_[th[0], np.log(np.diff(th[:q])), th[q:]]; cx.close("unconstrained parameters", OrderedTransform._fwd(th, q), u, 1e-12, 1e-12); cx.close("unconstrained parameters, inverse", OrderedTransform._rvs(u, q), th, 1e-12, 1e-12)
    if q > 1 and np.diff(th[:q]).min() > 1e-3:
        f = lambda z: nll(np.r_[z[0] + np.r_[0, np.cumsum(np.exp(z[1:q]))], z[q:]]); cx.close("unconstrained objective", m.loglike_unconstrained(u), nll(th), 1e-9, 1e-8); cx.deriv("unconstrained gradient", m.gradient_unconstrained(u), lambda z: np.array(f(z)), u, 1e-6, 1e-6, S); cx.deriv("unconstrained Hessian", m.hessian_unconstrained(u), m.gradient_unconstrained, u, 1e-6, 1e-6, S); cx.closen("unconstrained scores add up", m.gradient_unconstrained_i(u).sum(0), m.gradient_unconstrained(u), 1e-9, 1e-8)
        T = lambda z: OrderedTransform._rvs(z, q); cx.deriv("transform Jacobian", OrderedTransform._jac_rvs(u[:q], q), T, u[:q], 1e-7, 1e-7); cx.deriv("transform second derivative", OrderedTransform._hess_rvs(u[:q], q), lambda z: OrderedTransform._jac_rvs(z, q), u[:q], 1e-7, 1e-7); cx.close("inverse Jacobian", OrderedTransform._jac_fwd(th[:q], q) @ OrderedTransform._jac_rvs(u[:q], q), np.eye(q), 1e-8, 1e-9)
    if w is None:
        m1 = CLM1("y~" + "+".join(df.columns[:-1]) + "-1", df, link=L1[link]); cx.close("first generation, objective", m1.loglike(th), nll(th), 1e-9, 1e-8); cx.deriv("first generation, gradient", m1.gradient(th), lambda z: np.array(nll(z)), th, 1e-6, 1e-6, S); cx.deriv("first generation, Hessian", m1.hessian(th), m1.gradient, th, 1e-6, 1e-6, S)
        cs = [q_["fun"](th) for q_ in m1.constraints]; cx.ok("first generation, ordering constraints", len(cs) == q - 1 and np.allclose(cs, np.diff(th[:q])), lambda: (cs, np.diff(th[:q])))


@workload("ordinal, fits", quick=40, thorough=600, shards=5, timeout=900)
def clmf(cx):
    r = cx.rng; df, X, c, link, p = clm_data(r); n = len(df); q = c.max()
    if q < 1 or np.bincount(c).min() < 2: cx.skip("nearly empty category")
    w = r.integers(1, 4, n) * 1.0 if r.random() < .4 else None; W = np.ones(n) if w is None else w; d0 = df.copy(deep=True); m = CLM("y~" + "+".join(df.columns[:-1]), df, weights=w, link=L2[link]); ok = r.random() < .3; m.fit(**({"opt_kws": dict(options=dict(gtol=1e-8, xtol=1e-9))} if ok else {})); th = m.params; cx.case([link, int(q), p, w is None, ok]); cx.ok("data untouched", d0.equals(df))
    nll = lambda t: -np.sum(W * np.log(np.maximum(clm_p(link, X, c, t, q)[1][np.arange(n), c], 1e-300))); cx.ok("thresholds increase", np.all(np.diff(th[:q]) > 0)); H, C, se = stationary(cx, nll, th); cx.closen("covariance is the inverse Hessian", m.params_cov, C, 1e-4); table(cx, m.res, th, m.params_se, n - len(th)); cx.close("standard errors", m.params_se, se, 1e-4); cx.close("coefficients", np.r_[m.beta, m.beta_se], np.r_[th[q:], m.params_se[q:]], 1e-12)
    pr = np.array([W[c == j].sum() for j in range(q + 1)]) / W.sum(); sumstats(cx, m, nll(th), -np.sum(W * np.log(pr[c])), len(th), n)
    k = int(r.integers(1, n)); lv = float(r.uniform(.5, .99)); lp, P, CP = m.predict(X=X[:k], ci_level=lv); G, Q = clm_p(link, X[:k], None, th, q); cx.close("category probabilities", P["mean"].values, Q, 1e-8, 1e-12); cx.ok("category probabilities are a distribution", P["mean"].values.min() >= 0 and np.allclose(P["mean"].values.sum(1), 1)); cx.close("cumulative probabilities", CP["mean"].values, G[:, 1:-1], 1e-9, 1e-12)
    e = th[:q][None] - (X[:k] @ th[q:])[:, None]; s = np.zeros((k, q))
    for i in range(q): A = np.zeros((k, len(th))); A[:, i] = 1; A[:, q:] = -X[:k]; s[:, i] = np.sqrt(np.einsum("ij,jk,ik->i", A, m.params_cov, A))
    z = st.norm.ppf(.5 + lv / 2); cx.close("linear predictor and its interval", np.hstack([lp[a].values for a in ("mean", "se", "lower", "upper")]), np.hstack([e, s, e - z * s, e + z * s]), 1e-8, 1e-10); cx.ok("category labels", list(P["mean"].columns) == sorted(df.y.unique()))
    pm = r.permutation(n); m2 = CLM("y~" + "+".join(df.columns[:-1]), df.iloc[pm], weights=None if w is None else w[pm], link=L2[link]); m2.fit(); cx.ok("row order", np.all(np.abs(m2.params - th) < 5e-3 * se))
    if w is not None: ii = np.repeat(np.arange(n), w.astype(int)); m3 = CLM("y~" + "+".join(df.columns[:-1]), df.iloc[ii].reset_index(drop=True), link=L2[link]); m3.fit(); cx.ok("integer weights replicate rows", np.all(np.abs(m3.params - th) < 5e-3 * se)); cx.closen("integer weights replicate rows, covariance", m3.params_cov, m.params_cov, 1e-3)
    s0 = int(r.integers(1 << 30)); B, _ = m._bootstrap(n_boot=2, verbose=False, rng=np.random.default_rng(s0)); g = np.random.default_rng(s0)
    for b in range(2):
        ii = g.choice(n, size=n, replace=True); t = B.values[b]
        if len(np.unique(c[ii])) == q + 1 and np.abs(t).max() < 8: cx.ok("bootstrap refits the resample", np.abs(np.ravel(nderiv(lambda z: np.array(-np.sum(W[ii] * np.log(np.maximum(clm_p(link, X[ii], c, z, q)[1][np.arange(n), c[ii]], 1e-300)))), t)[0])).max() < .05 * np.sqrt(n))


@workload("ordinal, first generation fits", quick=16, thorough=200, shards=4, timeout=900)
def clm1f(cx):
    r = cx.rng; df, X, c, link, p = clm_data(r); n = len(df); q = c.max()
    if q < 1 or np.bincount(c).min() < 3: cx.skip("nearly empty category")
    link = "logit" if link == "cloglog" else link; m = CLM1("y~" + "+".join(df.columns[:-1]), df, link=L1[link]); m.fit(); cx.case([link, int(q), p]); X1 = np.c_[np.ones(n), X]; nll = lambda t: -np.sum(np.log(np.maximum(clm_p(link, X1, c, t, q)[1][np.arange(n), c], 1e-300))); th = np.r_[m.theta - m.beta[0], m.beta[1:]]; nl2 = lambda t: -np.sum(np.log(np.maximum(clm_p(link, X, c, t, q)[1][np.arange(n), c], 1e-300)))
    cx.ok("thresholds increase", np.all(np.diff(m.theta) > 0)); H, C, se = stationary(cx, nl2, th, .03); cx.closen("covariance of the slopes", m.Vcov[q + 1:, q + 1:], C[q:, q:], 2e-2); nl, ln = nl2(th), -np.sum(np.log(np.bincount(c)[c] / n)); S = m.sumstats; cs = 1 - np.exp(-2 / n * (ln - nl)); cx.close("summary statistics", S["statistic"].values.astype(float)[[0, 1, 2, 4]], [2 * (ln - nl), cs, 1 - nl / ln, cs / (1 - np.exp(-2 / n * ln))], 2e-3, 5e-3); cx.close("likelihood-ratio test", S.loc["LLR", "pvalue"], st.chi2(p).sf(S.loc["LLR", "statistic"]), 1e-8, 1e-300); cx.close("adjusted McFadden", S.loc["r2_mcfadden_adj", "statistic"], 1 - (nl + p + 1) / ln, 2e-3, 5e-3)
    cx.ok("predicted category", np.array_equal(m.predict(), np.searchsorted(m.theta, X1 @ m.beta)))


# ---------------------------------------------------------------- counts
def count_data(r, zi, nb, n=None):
    n = int(r.integers(60, 260)) if n is None else n; p, s = int(r.integers(1, 4)), int(r.integers(1, 3)); df = frame(r, n, p + s - 2 if p + s > 2 else 1); cols = list(df.columns); xc, zc = cols[:p - 1], cols[-(s - 1):] if s > 1 else []; X = np.c_[np.ones(n), df[xc].values]; Z = np.c_[np.ones(n), df[zc].values]; b = r.normal(size=p) * .4; b[0] = r.uniform(.3, 1.6); g = r.normal(size=s) * .5; k = np.exp(r.normal() * .4 - .3); mu = np.exp(X @ b); y = r.poisson(mu * (r.gamma(1 / k, k, n) if nb else 1)) * 1.0
    if zi: y[r.random(n) < 1 / (1 + np.exp(-Z @ g))] = 0
    df["y"] = y; return df, X, Z, y, xc, zc, np.r_[b, g, np.log(k)]


def pz(link, e): return INV[link](e)


def lp_nb(y, mu, k): a = 1 / k; return gammaln(y + a) - gammaln(a) - gammaln(y + 1) + y * np.log(k * mu) - (y + a) * np.log1p(k * mu)


def zi_nll(kind, X, Z, y, th, w=1.0, zl="logit"):
    mu = np.exp(X @ th[:X.shape[1]]); e = Z @ th[X.shape[1]:X.shape[1] + Z.shape[1]]; pi = INV[zl](e); lp = lp_nb(y, mu, np.exp(th[-1])) if kind == "nb" else sp.stats.poisson.logpmf(y, mu); q = 1 - pi if zl != "logit" else sp.special.expit(-e)
    return -w * np.where(y == 0, np.log(pi + q * np.exp(lp)), np.log(q) + lp)


def fm(xc): return "+".join(["1", *xc])


@workload("zero inflated, derivatives", quick=80, thorough=1600, shards=3)
def zid(cx):
    r = cx.rng; nb = bool(r.random() < .5); df, X, Z, y, xc, zc, th = count_data(r, r.random() < .8, nb); n = len(y)
    if not (y == 0).any(): cx.skip("no zeros")
    zl = "logit" if r.random() < .6 else "probit"; w = r.uniform(.3, 2, n) if r.random() < .4 else None; K = ZeroInflatedNBinom if nb else ZeroInflatedPoisson
    if r.random() < .5: m = K("y~" + fm(xc), "~" + fm(zc), data=df, zero_link=L2[zl], weights=w)
    else: m = K(X=pd.DataFrame(X), Z=pd.DataFrame(Z), y=pd.DataFrame(y), zero_link=L2[zl], weights=w)
    W = np.ones(n) if w is None else w; cx.case([nb, zl, X.shape[1], Z.shape[1], w is None]); th = th if nb else th[:-1]; th = th + r.normal(size=len(th)) * .2; f = lambda z: zi_nll("nb" if nb else "p", X, Z, y, z, W, zl); S = np.full(len(th), .1)
    cx.close("objective", m.loglike(th), f(th).sum(), 1e-9, 1e-8); cx.deriv("gradient", m.gradient(th), lambda z: np.array(f(z).sum()), th, 1e-6, 1e-6, S); cx.deriv("Hessian", m.hessian(th), m.gradient, th, 1e-6, 1e-6, S); cx.deriv("per-observation scores", m.gradient_i(th), f, th, 1e-6, 1e-6, S)
    if not nb: cx.close("per-observation objective", m.loglike_i(th), f(th), 1e-9, 1e-9)
    else: d = m.loglike_i(th) - f(th); d2 = m.loglike_i(th * 1.1) - f(th * 1.1); cx.deriv("per-observation kernel", np.zeros((n, len(th))), lambda z: m.loglike_i(z) - f(z), th, 1e-6, 1e-6, S)
    if nb: cx.closen("Hessian contributions add up", np.asarray(m.hessian_i(th)).sum(0), m.hessian(th), 1e-8, 1e-8)


@workload("zero inflated, fits", quick=32, thorough=500, shards=5, timeout=900)
def zif(cx):
    r = cx.rng; nb = bool(r.random() < .5); df, X, Z, y, xc, zc, t0 = count_data(r, True, nb, int(r.integers(200, 500))); n = len(y); K = ZeroInflatedNBinom if nb else ZeroInflatedPoisson; d0 = df.copy(deep=True); m = K("y~" + fm(xc), "~" + fm(zc), data=df); m.fit(); th = m.params; cx.case([nb, X.shape[1], Z.shape[1]]); kd = "nb" if nb else "p"; nll = lambda z: zi_nll(kd, X, Z, y, z).sum(); cx.ok("data untouched", df.equals(d0))
    if np.abs(th).max() > 7 or m.opt.optimality > 1e-3: cx.skip("solution at infinity")
    H, C, se = stationary(cx, nll, th); cx.closen("covariance is the inverse Hessian", m.params_cov, C, 1e-3); table(cx, m.res, th, m.params_se, n - len(th)); j = np.ones((n, 1)); t1 = np.r_[0.0, 0.0, 0.0] if nb else np.zeros(2); o = sp.optimize.minimize(lambda z: zi_nll(kd, j, j, y, z).sum(), t1, method="BFGS"); o = sp.optimize.minimize(lambda z: zi_nll(kd, j, j, y, z).sum(), o.x, method="Nelder-Mead", options=dict(xatol=1e-7, fatol=1e-9)); sumstats(cx, m, nll(th), o.fun, len(th), n, 1e-5)
    p, s = X.shape[1], Z.shape[1]; q = int(r.integers(1, 20)); lv = float(r.uniform(.5, .99)); kw = dict(mean_ci_level=lv)
    if nb: P = m.predict(X=X[:q], Z=Z[:q], **kw)
    else: P = m._predict(th, (X[:q], Z[:q], None, None), m.link, m.zero_link, coefs_cov=m.params_cov, **kw)
    e = np.c_[X[:q] @ th[:p], Z[:q] @ th[p:p + s]]; V = m.params_cov; sd = np.sqrt(np.c_[np.einsum("ij,jk,ik->i", X[:q], V[:p, :p], X[:q]), np.einsum("ij,jk,ik->i", Z[:q], V[p:p + s, p:p + s], Z[:q])]); z = st.norm.ppf(.5 + lv / 2); mu = lambda a: np.c_[np.exp(a[:, 0]), sp.special.expit(a[:, 1])]; cx.close("predictions", np.hstack([P[a] for a in ("lp", "lp_se", "mean", "mu_lower_ci", "mu_upper_ci")]), np.hstack([e, sd, mu(e), mu(e - z * sd), mu(e + z * sd)]), 1e-7, 1e-10)
    if nb:
        k = np.exp(th[-1]); D = st.nbinom(1 / k, 1 / (1 + k * mu(e)[:, 0])); cx.close("prediction interval of the count", np.c_[P["predicted_lower_ci"], P["predicted_upper_ci"]], np.c_[D.ppf(.025), D.ppf(.975)], 1e-6, 1e-8)


@workload("first generation counts", quick=32, thorough=500, shards=4, timeout=900)
def cnt1(cx):
    r = cx.rng; nb = bool(r.random() < .5); df, X, Z, y, xc, zc, t0 = count_data(r, not nb, nb, int(r.integers(120, 320))); n = len(y); cx.case([nb, X.shape[1], Z.shape[1]]); d0 = df.copy(deep=True); p = X.shape[1]
    if nb:
        m = NegativeBinomial("y~" + fm(xc), df); nll = lambda z: -lp_nb(y, np.exp(X @ z[:-1]), np.exp(z[-1])).sum(); th = np.r_[t0[:p], t0[-1]] + r.normal(size=p + 1) * .2
    else:
        fr = r.random() < .4; m = ZIP(pd.DataFrame(X, columns=["c", *xc]) if fr else X, y, pd.DataFrame(Z, columns=["k", *zc]) if fr else Z); nll = lambda z: zi_nll("p", X, Z, y, z).sum(); th = t0[:-1] + r.normal(size=len(t0) - 1) * .2
    S = np.full(len(th), .1); cx.close("objective", m.loglike(th), nll(th), 1e-9, 1e-8); cx.deriv("gradient", m.gradient(th), lambda z: np.array(nll(z)), th, 1e-6, 1e-6, S); cx.deriv("Hessian", m.hessian(th), m.gradient, th, 1e-6, 1e-6, S)
    m.fit(); th = m.params; cx.ok("data untouched", df.equals(d0))
    if np.abs(th).max() > 6: cx.skip("solution at infinity")
    H, C, se = stationary(cx, nll, th, .02); k = len(th); nl = nll(th); cx.close("standard errors", m.se_params, se, 1e-3); j = np.ones((n, 1)); g = lambda z: -lp_nb(y, np.exp(z[0]), np.exp(z[1])).sum() if nb else zi_nll("p", j, j, y, z).sum(); o = sp.optimize.minimize(g, [np.log(y.mean()), 0.0], method="Nelder-Mead", options=dict(xatol=1e-7, fatol=1e-9, maxiter=3000)); ln = o.fun; cs = 1 - np.exp(-2 / n * (ln - nl)); nk = cs / (1 - np.exp(-2 / n * ln)); T = 2 * (ln - nl); t = th / m.se_params
    if nb:
        cx.close("table", m.res.values[:, :3], np.c_[th, m.se_params, t], 1e-9); a = m.sumstats["Test_stat"].astype(float); mu = np.exp(X @ th[:-1]); kp = np.exp(th[-1]); q2 = np.sum((y - mu) ** 2 / (mu + kp * mu ** 2)); dv = 2 * np.sum(sp.special.xlogy(y, y / mu) - (y + 1 / kp) * np.log((1 + kp * y) / (1 + kp * mu)))
        cx.close("summary statistics", [a[s] for s in ("AIC", "BIC", "chi2", "deviance", "LLR", "R2_Cox_Snell", "R2_Nagelkerke", "R2_McFadden", "scaled_chi2")], [2 * nl + 2 * k, 2 * nl + k * np.log(n), q2, dv, T, cs, nk, 1 - nl / ln, q2 / (n - p)], 1e-4, 1e-3); cx.close("fitted means", m.yhat, mu, 1e-9)
    else:
        cx.close("table", m.res.values, np.c_[th, m.se_params, t, 2 * st.t(n - k).sf(np.abs(t))], 1e-7, 1e-300); a = m.sumstats["Fit Statistic"]; cx.close("summary statistics", [a[s] for s in ("AIC", "AICc", "BIC", "LLR", "PseudoR2_CS", "PseudoR2_N", "PseudoR2_MCF", "PseudoR2_MCFA")], [2 * nl + 2 * k, 2 * nl + 2 * k * n / (n - k - 1), 2 * nl + k * np.log(n), T, cs, nk, 1 - nl / ln, 1 - (nl + k) / ln], 1e-4, 1e-3)
        cx.close("likelihood-ratio test", [a["LLRp"]][:k - 2], [st.chi2(max(k - 2, 1)).sf(a["LLR"])][:k - 2], 1e-8, 1e-300); mu, pi = np.exp(X @ th[:p]), sp.special.expit(Z @ th[p:]); cx.close("fitted mean and variance", np.array(m.predict(th)), np.c_[(1 - pi) * mu, (1 - pi) * (mu + mu ** 2) - ((1 - pi) * mu) ** 2].T, 1e-8)


# ---------------------------------------------------------------- beta
@workload("beta regression", quick=48, thorough=800, shards=4, timeout=900)
def beta(cx):
    r = cx.rng; n = int(r.integers(50, 250)); p, s = int(r.integers(1, 4)), int(r.integers(1, 3)); df = frame(r, n, 4); xc, zc = [f"x{i}" for i in range(p - 1)], [f"x{3 - i}" for i in range(s - 1)]; X = np.c_[np.ones(n), df[xc].values]; Z = np.c_[np.ones(n), df[zc].values]; ml = str(r.choice(["logit", "probit", "cloglog"])); b, g = r.normal(size=p) * .4, r.normal(size=s) * .3; g[0] = r.uniform(.8, 3); mu, ph = INV[ml](X @ b), np.exp(Z @ g)
    if mu.min() < .02 or mu.max() > .98: cx.skip("mean at the boundary")
    y = np.clip(r.beta(mu * ph, (1 - mu) * ph), 1e-6, 1 - 1e-6); df["y"] = y; cx.case([ml, p, s]); d0 = df.copy(deep=True)
    m = BetaReg(m_formula="y~" + fm(xc), s_formula="y~" + fm(zc), data=df, m_link=L1[ml]) if r.random() < .5 else BetaReg(X=pd.DataFrame(X), Z=pd.DataFrame(Z), y=y, m_link=L1[ml]); f = lambda t: -st.beta.logpdf(y, INV[ml](X @ t[:p]) * np.exp(Z @ t[p:]), (1 - INV[ml](X @ t[:p])) * np.exp(Z @ t[p:])); nll = lambda t: f(t).sum(); th = np.r_[b, g] + r.normal(size=p + s) * .1; S = np.full(p + s, .1)
    cx.close("objective", m.loglike(th), nll(th), 1e-8, 1e-7); cx.close("objective by observation", m.loglike_elementwise(th), f(th), 1e-5, 1e-6); cx.deriv("gradient", m.gradient(th), lambda z: np.array(nll(z)), th, 1e-6, 1e-6, S); cx.deriv("Hessian", m.hessian(th), m.gradient, th, 1e-6, 1e-6, S)
    with contextlib.redirect_stdout(io.StringIO()): m.fit()
    th = m.theta; cx.ok("data untouched", df.equals(d0)); H, C, se = stationary(cx, nll, th, .02); table(cx, m.res, th, np.sqrt(np.diag(np.linalg.inv(m.hessian(th)))), n - p - s); cx.close("standard errors", m.res["SE"], se, 1e-3); k, nl = p + s, nll(th); a = m.sumstats; info(cx, nl, k, n, [a[q] for q in ("aic", "aicc", "bic", "caic")], 1e-6); g0 = lambda z: -st.beta.logpdf(y, INV[ml](z[0]) * np.exp(z[1]), (1 - INV[ml](z[0])) * np.exp(z[1])).sum(); ln = sp.optimize.minimize(g0, [0., 1.], method="Nelder-Mead", options=dict(xatol=1e-8, fatol=1e-10, maxiter=3000)).fun; T = 2 * (ln - nl); cs = 1 - np.exp(-T / n); cx.close("likelihood-ratio statistic", a["LLR"], T, 1e-4, 1e-3); cx.close("pseudo R-squared", [a["PseudoR2_CS"], a["PseudoR2_MCF"], a["PseudoR2_MFA"]], [cs, 1 - nl / ln, T / (T + n)], 1e-3, 1e-4)
    M, F = m.predict(); cx.close("predicted mean and precision", np.c_[M, F], np.c_[INV[ml](X @ th[:p]), np.exp(Z @ th[p:])], 1e-9)
