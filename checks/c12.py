"""C12: least squares fits against definitions and brute-force refits; resampling against exhaustive enumeration."""
import itertools, math, warnings
import numpy as np, scipy as sp, scipy.stats as st, pandas as pd
from vlib.mon import workload, nderiv
from pystatsm.pyglm import ols as o1
from pystatsm.pyglm2 import ols as o2, mvols as mv
from pystatsm.pyglm2.regression_model import RegressionMixin
from pystatsm.utilities import output


def design(r, n=None, p=None, kind=None):
    """Regression data with an intercept unless kind says otherwise: (df, X, y, names)."""
    n = n or int(r.integers(8, 80)); p = p or int(r.integers(2, min(6, n - 4))); kind = kind or str(r.choice(["normal", "factor", "heavy", "collinear", "leverage"]))
    Z = r.normal(size=(n, p - 1)) * np.exp(r.normal(size=p - 1))
    if kind == "factor": Z[:, 0] = np.r_[0., 1., r.integers(0, 2, n - 2)]
    if kind == "heavy": Z = r.standard_t(2, size=Z.shape)
    if kind == "collinear" and p > 2: Z[:, 1] = Z[:, 0] + .05 * r.normal(size=n)
    if kind == "leverage": Z[0] *= 6
    Z += r.normal(size=p - 1) * (r.random() < .5) * 3
    if np.max(np.sum(np.linalg.qr(np.c_[np.ones(n), Z])[0] ** 2, axis=1)) > 1 - 1e-4: return design(r, n, p, "normal")
    X = np.c_[np.ones(n), Z]; b = r.normal(size=p); y = X @ b + r.normal(size=n) * np.exp(r.normal() * .7) * (1 + (r.random() < .4) * np.abs(X[:, -1]))
    return kind, X, y, pd.DataFrame(np.c_[Z, y], columns=[f"z{j}" for j in range(1, p)] + ["y"])


def lsq(X, y):
    b = np.linalg.lstsq(X, y, rcond=None)[0]; e = y - X @ b; C = np.linalg.inv(X.T @ X); return b, e, e @ e, C


def hc(X, e, kind):
    n, p = X.shape; C = np.linalg.inv(X.T @ X); h = np.array([x @ C @ x for x in X]); f = dict(HC0=np.ones(n), HC1=np.full(n, n / (n - p)), HC2=1 / (1 - h), HC3=(1 - h) ** -2., HC4=(1 - h) ** -np.minimum(4, h * n / p))[kind]
    return C @ (X.T * (f * e * e)) @ X @ C, (X.T * (f * e * e)) @ X


def anova(cx, m, X, y, sse):
    n, p = X.shape; sst = np.sum((y - y.mean()) ** 2); R = 1 - sse / sst; S = m.sumstats; F = (sst - sse) / (p - 1) / (sse / (n - p))
    cx.close("R squared", S.loc["R2", "Statistic"], R, 1e-7, 1e-9); cx.close("adjusted R squared", S.loc["R2 Adj", "Statistic"], 1 - (1 - R) * (n - 1) / (n - p), 1e-7, 1e-9); cx.close("F test", S.loc["F test", "Statistic"], F, 1e-6, 1e-8); cx.close("F test p-value", S.loc["F test", "P"], st.f(p - 1, n - p).sf(F), 1e-5, 1e-12)
    Q = m.ssq.to_numpy(); cx.close("sums of squares", Q, [[sse, n - p, sse / (n - p)], [sst - sse, p - 1, (sst - sse) / (p - 1)], [sst, n - 1, sst / (n - 1)]], 1e-7, 1e-7 * sst)


@workload("first generation fits", quick=200, thorough=6000, shards=2)
def fit1(cx):
    r = cx.rng; kind, X, y, df = design(r); n, p = X.shape; how = str(r.choice(["formula", "arrays", "frame"])); cx.case([kind, how, p, n > 20], n=n); X0, y0 = X.copy(), y.copy()
    m = o1.OLS("y~" + "+".join(df.columns[:-1]), data=df) if how == "formula" else o1.OLS(X=X, y=y) if how == "arrays" else o1.OLS(X=pd.DataFrame(X, columns=["Intercept"] + list(df.columns[:-1])), y=y)
    ks = list(r.permutation(["HC0", "HC1", "HC2", "HC3", "HC4"])[:int(r.integers(0, 5))]); m.fit(var_beta=ks or None); b, e, sse, C = lsq(X, y); s2 = sse / (n - p); se = np.sqrt(s2 * np.diag(C)); sc = np.abs(y).max()
    cx.ok("normal equations", np.all(np.abs(X.T @ (y - X @ m.beta)) <= 1e-7 * np.linalg.norm(X, axis=0) * np.linalg.norm(y)), lambda: X.T @ (y - X @ m.beta)); cx.close("coefficients", m.beta, b, 1e-6, 1e-7); T = m.res; cx.close("table coefficients", T["beta"], b, 1e-6, 1e-7); cx.close("standard errors", T["SE"], se, 1e-6); cx.close("t statistics", T["t"], b / se, 1e-5, 1e-6); cx.close("p values", T["p"], 2 * st.t(n - p).sf(np.abs(b / se)), 1e-4, 1e-12); cx.closen("coefficient covariance", m.Vbeta, s2 * C, 1e-6); cx.close("residual variance", m.s2, s2, 1e-7)
    for k in ks: V = hc(X, e, k)[0]; q = np.sqrt(np.diag(V)); cx.close("robust standard errors", T["SE_" + k], q, 1e-6); cx.close("robust t", T["t_" + k], b / q, 1e-5, 1e-6); cx.close("robust p", T["p_" + k], 2 * st.t(n - p).sf(np.abs(b / q)), 1e-4, 1e-12)
    W, om, q = m.robust_rcov(); cx.close("robust default is HC3", q, np.sqrt(np.diag(hc(X, e, "HC3")[0])), 1e-6); anova(cx, m, X, y, sse)
    h = np.einsum("ij,jk,ik->i", X, C, X); cx.close("leverages", m.h, h, 1e-7, 1e-9); cx.close("leverages", m.get_influence()["leverage"], h, 1e-7, 1e-9); I = m.get_influence(); m._compute_jackknife_coefs(); names = list(m.xcols)
    for i in r.choice(n, min(n, 6), replace=False):
        if h[i] > 1 - 1e-6: continue
        k = np.arange(n) != i; bi, ei, ssei, Ci = lsq(X[k], y[k]); s2i = ssei / (n - 1 - p); db = b - bi; cx.close("jackknife equals refits", m.beta_jackknife[i], bi, 1e-5, 1e-6 * (1 + np.abs(b))); cx.close("dfbeta", I[names].iloc[i].to_numpy(), db, 1e-5, 1e-6 * (1 + np.abs(b)))
        di = y[i] - X[i] @ bi; cx.close("deleted variance", I["s_i"].iloc[i] ** 2, s2i, 1e-6); ts = di / np.sqrt(s2i * (1 + X[i] @ Ci @ X[i])); cx.close("studentized residual", I["r_students"].iloc[i], ts, 1e-5, 1e-7); cx.close("studentized deleted residual", I["studentized_d_residuals"].iloc[i], ts, 1e-5, 1e-7)
        cx.close("Cook's distance", I["cooks_distance"].iloc[i], db @ X.T @ X @ db / (p * s2), 1e-5, 1e-9); cx.close("DFFITS", I["dfits"].iloc[i], X[i] @ db / np.sqrt(s2i * h[i]), 1e-5, 1e-7); cx.close("covariance ratio", I["cov_ratio"].iloc[i], np.linalg.det(s2i * Ci) / np.linalg.det(s2 * C), 1e-5)
    cx.close("jackknife mean", m.beta_jackknife_mean, m.beta_jackknife.mean(0), 1e-9, 1e-10); cx.close("centred jackknife", m.beta_jackknife_z, m.beta_jackknife - m.beta_jackknife.mean(0), 1e-9, 1e-10)
    t = r.normal(size=p + 1); t[:p] += b; cx.close("log-likelihood", m.loglike(t), st.norm(X @ t[:p], np.exp(t[p])).logpdf(y).sum(), 1e-9, 1e-7); rr = y - X @ t[:p]; cx.close("profiled log-likelihood", m.loglike(t[:p]), st.norm(0, np.sqrt(rr @ rr / n)).logpdf(rr).sum(), 1e-9, 1e-7); Xn = r.normal(size=(4, p)); cx.close("prediction", m.predict(X=Xn), Xn @ b, 1e-6, 1e-7); cx.ok("inputs untouched", np.array_equal(X, X0) and np.array_equal(y, y0))


@workload("second generation fits", quick=250, thorough=6000, shards=2)
def fit2(cx):
    r = cx.rng; kind, X, y, df = design(r); n, p = X.shape; reml = bool(r.integers(2)); how = bool(r.integers(2)); cx.case([kind, reml, how, p], n=n); m = o2.OLS("y~" + "+".join(df.columns[:-1]), data=df) if how else o2.OLS(X=X, y=y); m.fit(reml=reml); b, e, sse, C = lsq(X, y); nn = n - p if reml else n
    cx.ok("normal equations", np.all(np.abs(X.T @ (y - X @ m.beta)) <= 1e-7 * np.linalg.norm(X, axis=0) * np.linalg.norm(y))); cx.close("coefficients", m.beta, b, 1e-6, 1e-7); cx.close("parameters", m.params, np.r_[b, np.log(sse / nn)], 1e-6, 1e-7); cx.close("scale", m.scale, np.sqrt(sse / nn), 1e-7); cx.close("maximum likelihood scale", m.scale_ml, np.sqrt(sse / n), 1e-7); cx.close("unbiased scale", m.scale_unbiased, np.sqrt(sse / (n - p)), 1e-7)
    anova(cx, m, X, y, sse); T = m.res; V = m.params_cov; cx.closen("coefficient covariance", V[:p, :p], sse / nn * C, 1e-6); cx.close("variance of the log variance", V[p, p], 2 / nn if reml else 2 / n, 1e-6); th = m.params; se = np.sqrt(np.r_[sse / nn * np.diag(C), 2 / nn])
    cols = list(T.columns); cx.close("table", T.iloc[:, 0], th, 1e-9, 1e-9); cx.close("table standard errors", T.iloc[:, 1], se, 1e-6); cx.close("table statistics", T.iloc[:, 2], th / se, 1e-6, 1e-6); cx.close("table p values", T.iloc[:, 3], 2 * st.t(n - p).sf(np.abs(th / se)), 1e-4, 1e-12)
    for a, c in zip(o2.OLS._fit1(None, (X, y), reml=reml), o2.OLS._fit2(None, (X, y), reml=reml)): cx.closen("both factorization routes agree", a, c, 1e-6)
    t = th + r.normal(size=p + 1) * .3 * np.sqrt(np.r_[sse / nn * np.diag(C) * n, 1]); g = lambda q: m.loglike(q, reml=reml); mu = X @ t[:p]; v = np.exp(t[p]); nll = .5 * nn * np.log(2 * np.pi * v) + np.sum((y - mu) ** 2) / 2 / v; cx.close("objective", g(t), nll, 1e-9, 1e-8); scl = .2 * se + 1e-3; cx.deriv("gradient", m.gradient(t, reml=reml), lambda q: np.array(g(q)), t, 1e-5, 1e-6 * (1 + abs(nll)), scl); H = m.hessian(t, reml=reml); cx.deriv("Hessian", H, lambda q: m.gradient(q, reml=reml), t, 1e-5, 1e-6, scl); cx.closen("symmetric Hessian", H, H.T, 1e-12); cx.ok("fit minimizes the objective", g(th) <= nll + 1e-8 * (1 + abs(nll)))
    k = int(r.integers(1, p + 1)); A = r.normal(size=(k, p)); d = r.normal(size=k) if r.random() < .5 else None; L = np.linalg.cholesky(X.T @ X); kw = [dict(), dict(L=L), dict(Linv=np.linalg.inv(L))][int(r.integers(3))]; bc, sc = m._get_coef_constrained(th, sse, (X, y), A, d, **kw); dd = np.zeros(k) if d is None else d; K = np.block([[X.T @ X, A.T], [A, np.zeros((k, k))]]); want = np.linalg.solve(K, np.r_[X.T @ y, dd])[:p]
    cx.closen("constraint satisfied", A @ bc, dd, 1e-5, ) if np.abs(dd).max() > 0 else cx.ok("constraint satisfied", np.abs(A @ bc).max() < 1e-6 * (1 + np.abs(b).max() * np.abs(A).max())); cx.closen("constrained coefficients", bc, want, 1e-4 if kind == "collinear" else 1e-5, 1e-6 * (1 + np.abs(b).max())); cx.close("constrained sum of squares", sc, np.sum((y - X @ want) ** 2), 1e-5)
    cx.close("prediction", m.predict(X=X[:3]), X[:3] @ b, 1e-6, 1e-7)


@workload("sandwich, leverage and R squared helpers", quick=200, thorough=5000)
def helpers(cx):
    r = cx.rng; kind, X, y, _ = design(r); n, p = X.shape; b, e, sse, C = lsq(X, y); h = np.einsum("ij,jk,ik->i", X, C, X); cx.case([kind, p], n=n)
    for k in ("HC0", "HC1", "HC2", "HC3", "HC4"): cx.closen("sandwich meat", RegressionMixin.sandwich_cov(e, X, h, k), hc(X, e, k)[1], 1e-7)
    R = RegressionMixin; L = np.linalg.cholesky(X.T @ X); cx.close("Cholesky leverage", R._compute_leverage_cholesky(WX=X), h, 1e-6, 1e-8); cx.close("Cholesky leverage", R._compute_leverage_cholesky(WX=X, Linv=np.linalg.inv(L)), h, 1e-6, 1e-8); cx.close("QR leverage", R._compute_leverage_qr(WX=X), h, 1e-6, 1e-8); cx.close("QR leverage", R._compute_leverage_qr(Q=np.linalg.qr(X)[0]), h, 1e-6, 1e-8)


def fit_rows(X, y, idx):
    """Least squares of many resamples at once: beta, se, sse."""
    n, p = X.shape; Xs, ys = X[idx], y[idx]; G = np.einsum("kia,kib->kab", Xs, Xs); ok = np.linalg.cond(G) < 1e10; G[~ok] = np.eye(p); c = np.einsum("kia,ki->ka", Xs, ys); b = np.linalg.solve(G, c[..., None])[..., 0]; sse = ((ys - np.einsum("kia,ka->ki", Xs, b)) ** 2).sum(1); se = np.sqrt(np.maximum(sse, 0)[:, None] / (n - p) * np.diagonal(np.linalg.inv(G), axis1=1, axis2=2)); return b, se, sse, ok


def members(cx, name, S, U, tol=1e-5, slack=0):
    """Every row of S is one of the rows of U; returns the nearest indices."""
    scale = np.maximum(np.abs(S), 1); D = np.array([np.min(np.max(np.abs(U - s) / sc, axis=1)) for s, sc in zip(S, scale)]); cx.ok(name, np.sum(D >= tol) <= slack, lambda: f"{np.sum(D >= tol)} of {len(S)} draws match no resample; worst {D.max()}: {S[D.argmax()]}"); return np.array([np.argmin(np.max(np.abs(U - s) / sc, axis=1)) for s, sc in zip(S, scale)]), D < tol


@workload("bootstrap draws", quick=24, thorough=250, shards=3)
def boot(cx):
    r = cx.rng; n = 6 if r.random() < .5 else 5; p = 2 if r.random() < .6 else 1; Z = np.sort(r.normal(size=n)) * 2 + np.arange(n); X = np.c_[np.ones(n), Z][:, :p] if r.random() < .6 or p == 2 else Z[:, None] + 8.; y = r.normal(size=n) + 2; seed = int(r.integers(2 ** 31)); B = 300
    idx = np.array(list(itertools.combinations_with_replacement(range(n), n))); pr = np.array([math.factorial(n) / np.prod([math.factorial(c) for c in np.bincount(i, minlength=n)]) for i in idx]) / n ** n; b, se, sse, ok = fit_rows(X, y, idx); var = str(r.choice(["first", "first ssq", "second", "jitted"], p=[.3, .25, .3, .15])); cx.case([var, n, p], draws=B)
    if var == "jitted" and p > 1: cx.skip("the compiled loop cannot skip singular resamples")
    def run():
        np.random.seed(seed)
        if var.startswith("first"):
            m = o1.OLS(X=X, y=y); m.fit(); m.bootstrap(B, ssq=var == "first ssq"); return m, np.c_[m.beta_samples, m.beta_se_samples]
        m = o2.OLS(X=X, y=y); m.fit(); return m, (m._bootstrap(B, verbose=False) if var == "second" else m._bootstrap_jitted(B))
    m, S = run(); U = np.c_[b, se] if var.startswith("first") else np.c_[b, sse]; good = np.all(np.isfinite(S), axis=1) & (np.abs(S).max(1) < 1e4); cx.ok("degenerate draws are rare", (~good).mean() < .05 + 3 * pr[~ok].sum(), (~good).sum()); keep = ok
    if var.startswith("first"): good &= S[:, p:].min(1) > 0
    # resamples with a single distinct row are singular for p=2: excluded from matching together with their rounding noise
    sing = pr[~ok].sum() * B; w, mt = members(cx, "every draw is a fit to a resample", S[good], U[keep], 1e-4, slack=0 if not sing else int(sing + 6 * sing ** .5 + 2)); w = w[mt]; g0 = np.where(good)[0][mt]; good = np.zeros(B, bool); good[g0] = True; cx.ok("enough draws", good.sum() > .85 * B, good.sum());
    cnt = np.bincount(w, minlength=keep.sum()); q = pr[keep] / pr[keep].sum(); ex = cnt.sum() * q; z = (cnt.max() - ex[cnt.argmax()]) / np.sqrt(ex[cnt.argmax()] + .25); cx.ok("resamples are drawn uniformly with replacement", z < 9, z)
    rows = np.array([np.bincount(i, minlength=n) for i in idx[keep]]); mc = (cnt[:, None] * rows).sum(0) / cnt.sum(); sd = np.sqrt((q[:, None] * (rows - 1) ** 2).sum(0) / cnt.sum()); ez = (q[:, None] * rows).sum(0); cx.ok("each row is drawn equally often", np.all(np.abs(mc - ez) < 6 * sd + 1e-9), mc); vz = (cnt[:, None] * (rows - 1) ** 2).sum() / cnt.sum(); e2 = (q[:, None] * (rows - 1) ** 2).sum(); s2 = np.sqrt(((q * ((rows - 1) ** 2).sum(1) ** 2).sum() - e2 ** 2) / cnt.sum()); cx.ok("rows are drawn with replacement", abs(vz - e2) < 6 * s2, (vz, e2)); cx.note("distinct_resamples", int((cnt > 0).sum()))
    if var != "jitted": cx.ok("reproducible under a fixed seed", np.array_equal(run()[1], S, equal_nan=True))
    if var.startswith("first"):
        T = m.res; cx.close("bootstrap standard errors", T["SE_boot"], m.beta_samples.std(axis=0), 1e-9); cx.close("bootstrap t", T["t_boot"], T["beta"] / T["SE_boot"], 1e-9); cx.close("bootstrap p", T["p_boot"], 2 * st.t(n - p).sf(np.abs(T["t_boot"])), 1e-9, 1e-13)
    if var == "first ssq" and p == 2:
        Q = m.ssq_samples; ii = idx[keep][w]; yb = y[ii]; sst = ((yb - yb.mean(1, keepdims=True)) ** 2).sum(1); sr = sse[keep][w]; g = np.where(good)[0]; cx.close("bootstrap residual sum of squares", Q["SSR"].to_numpy()[g], sr, 1e-4, 1e-6); nz = sr > 1e-6; cx.close("bootstrap total sum of squares", Q["SST"].to_numpy()[g][nz], sst[nz], 1e-5, 1e-6); cx.close("bootstrap R squared", Q["Rsquared"].to_numpy()[g][nz], (1 - sr / np.where(sst > 0, sst, 1))[nz], 1e-4, 1e-4)


@workload("permutation tests", quick=30, thorough=300, shards=3)
def perm(cx):
    r = cx.rng; n = int(r.integers(5, 7)); p = int(r.integers(2, 4)); X = np.c_[np.ones(n), r.normal(size=(n, p - 1))]; y = r.normal(size=n) + X[:, 1] * r.normal() + 1; B = 400; seed = int(r.integers(2 ** 31)); df = pd.DataFrame(X[:, 1:], columns=[f"z{j}" for j in range(1, p)]); df["y"] = y; var = str(r.choice(["stored", "plain", "freedman-lane", "second"])); cx.case([var, n, p], draws=B); P = np.array(list(itertools.permutations(range(n)))); voi = np.arange(1, p) if var in ("stored", "plain") or r.random() < .5 else np.array([p - 1])
    b, e, sse, C = lsq(X, y); t0 = np.abs(b / np.sqrt(sse / (n - p) * np.diag(C)))
    fl = var in ("freedman-lane", "second"); Xc = X[:, np.setdiff1d(np.arange(p), voi)]; u = Xc @ np.linalg.lstsq(Xc, y, rcond=None)[0] if fl else 0.; Y = (u + (y - u)[P]); A = np.linalg.inv(X.T @ X) @ X.T; Bm = Y @ A.T; E = Y - Bm @ X.T; Tm = Bm / np.sqrt((E ** 2).sum(1)[:, None] / (n - p) * np.diag(C)); Ta = np.abs(Tm)
    def run():
        if var == "second":
            m = o2.OLS(X=X, y=y); m.fit(); f, q = m._permutation_test(list(voi) if r.random() < .5 else voi, B, verbose=False, rng=np.random.default_rng(seed)); return q, f, None, m
        np.random.seed(seed); m = o1.OLS("y~" + "+".join(df.columns[:-1]), data=df); m.fit()
        if var == "freedman-lane":
            m.freedman_lane(None if len(voi) == p - 1 else voi, B, verbose=False); rows = m.res.index[voi]; return m.res.loc[rows, "freedman_lane_p"].to_numpy(float), m.res.loc[rows, "freedman_lane_p_fwer"].to_numpy(float), None, m
        m.permutation_test(B, store_samples=var == "stored", verbose=False); return m.res["permutation_p"].to_numpy(), m.res["permutation_p_fwer"].to_numpy(), m.permutation_t_samples, m
    q, f, S, m = run(); ix = voi if fl else np.arange(p); T = Ta[:, ix]; t = t0[ix]
    if S is not None: members(cx, "every draw is a fit to a permutation", S, Tm); a = np.abs(S); tie = 1e-9 * (1 + t); cx.ok("p-values are tail fractions of the stored draws", np.all(((a > t + tie).mean(0) - 1e-9 <= q) & (q <= (a >= t - tie).mean(0) + 1e-9)), lambda: (q, (a > t).mean(0))); M = a.max(1)[:, None]; cx.ok("adjusted p-values are tail fractions of the maximum", np.all(((M > t + tie).mean(0) - 1e-9 <= f) & (f <= (M >= t - tie).mean(0) + 1e-9)), lambda: (f, (M > t).mean(0)))
    for nm, got, V in (("p-value", q, T), ("adjusted p-value", f, np.broadcast_to(T.max(1)[:, None], T.shape))):
        tie = 1e-8 * (1 + t); lo, hi = (V > t + tie).mean(0), (V >= t - tie).mean(0); sd = lambda z: 6 * np.sqrt(np.maximum(z * (1 - z), .5 / B) / B); cx.ok(nm + " estimates the exact permutation probability", np.all((got >= lo - sd(lo)) & (got <= hi + sd(hi))), lambda: (got, lo, hi)); cx.ok(nm + " is a fraction of the draws", np.all((got >= 0) & (got <= 1) & (np.abs(got * B - np.round(got * B)) < 1e-6 * B)), got)
    cx.ok("adjustment never lowers a p-value", np.all(f >= q - 1e-12)); cx.note("exact_permutations", len(P)); q2, f2, *_ = run(); cx.ok("reproducible under a fixed generator", np.array_equal(q, q2) and np.array_equal(f, f2))


def rank(A): return int(np.linalg.matrix_rank(A))


def ftest(stat, v, p, q, ve):
    """SAS/STAT F approximations."""
    s = min(p, q); m = (abs(p - q) - 1) / 2; n = (ve - p - 1) / 2
    if stat == 0:
        rr = ve - (p - q + 1) / 2; u = (p * q - 2) / 4; t = np.sqrt((p * p * q * q - 4) / (p * p + q * q - 5)) if p * p + q * q - 5 > 0 else 1; l = v ** (1 / t); return (1 - l) / l * (rr * t - 2 * u) / (p * q), p * q, rr * t - 2 * u
    if stat == 1: return (2 * n + s + 1) / (2 * m + s + 1) * v / (s - v), s * (2 * m + s + 1), s * (2 * n + s + 1)
    if stat == 2:
        if n > 0:
            D = 2 * (2 * n + 1) * (n - 1); N = (p + 2 * n) * (q + 2 * n); d = 4 + (p * q + 2) * D / (N - D); c = (2 + (p * q + 2) * D / (N - D)) / (2 * n); return v / c * d / (p * q), p * q, d
        return 2 * (s * n + 1) * v / (s * s * (2 * m + s + 1)), s * (2 * m + s + 1), 2 * (s * n + 1)
    rr = max(p, q); return v * (ve - rr + q) / rr, rr, ve - rr + q


def manova(cx, T, B, C, E, L, M, ve):
    M = np.eye(E.shape[0]) if M is None else M; LB = L @ B @ M; H = LB.T @ np.linalg.inv(L @ C @ L.T) @ LB; E = M.T @ E @ M; lam = np.sort(np.real(np.linalg.eigvals(np.linalg.solve(E, H))))[::-1]; lam = np.maximum(lam, 0); p, q = E.shape[0], len(L); vals = [np.linalg.det(E) / np.linalg.det(E + H), np.trace(H @ np.linalg.inv(E + H)), np.trace(H @ np.linalg.inv(E)), lam[0]]
    cx.close("multivariate test statistics", T["Value"], vals, 1e-5, 1e-7)
    for k in range(4):
        F, d1, d2 = ftest(k, vals[k], p, q, ve); s = min(p, q)
        row = T.iloc[k]; cx.close("multivariate test degrees of freedom", [row["Num DF"]], [d1], 1e-8)
        if k == 2 and (ve - p - 1) / 2 <= 0: continue   # textbooks disagree here
        cx.close("multivariate test degrees of freedom", [row["Den DF"]], [d2], 1e-8); cx.close("multivariate F statistic", row["F Value"], F, 1e-4, 1e-6)
        if d2 > 0: cx.close("multivariate p value", row["P Value"], st.f(d1, d2).sf(F), 1e-3, 1e-10)
    if min(p, q) == 1 and q == 1: cx.close("all statistics agree for one contrast", T["P Value"].iloc[:2], [T["P Value"].iloc[0]] * 2, 1e-5, 1e-10)
    return lam


@workload("multivariate fits", quick=240, thorough=6000, shards=3)
def mvfit(cx):
    r = cx.rng; q = int(r.integers(1, 5)); p = int(r.integers(1, 6)); n = p + q + int(r.integers(1, 50)) + 1; wt = bool(r.integers(2)); how = bool(r.integers(2)) and p > 1; X = np.c_[np.ones(n), r.normal(size=(n, p - 1))]; A = r.normal(size=(q, q)) + np.eye(q); Y = X @ r.normal(size=(p, q)) * (r.random() < .7) + r.normal(size=(n, q)) @ A; w = r.uniform(.2, 3, n) if wt else np.ones(n); W = np.diag(w); cx.case([q, p, wt, how, n - p - q < 4], n=n)
    if how:
        df = pd.DataFrame(np.c_[Y, X[:, 1:]], columns=[f"y{i + 1}" for i in range(q)] + [f"z{i}" for i in range(1, p)]); m = mv.MVOLS("+".join(df.columns[:q]) + "~" + "+".join(df.columns[q:]), data=df, weights=w if wt else None)
    else: m = mv.MVOLS(X=X, y=Y, weights=w if wt else None)
    mle = r.random() < .15; m.fit(method="mle" if mle else "closed_form"); G = X.T @ W @ X; C = np.linalg.inv(G); B = C @ X.T @ W @ Y; R = Y - X @ B; E = R.T @ W @ R; tol = 1e-4 if mle else 1e-6; cx.close("coefficients", m.beta, B, tol, tol * (1 + np.abs(B).max())); cx.closen("maximum likelihood covariance", m.sigma_mle, E / w.sum(), 10 * tol); cx.closen("residual cross products", m.resid_sscp, E, 10 * tol); cx.closen("unbiased covariance", m.sigma_unbiased, E / (n - p), 10 * tol); cx.closen("precision", m.precision @ m.sigma_mle, np.eye(q), 1e-6)
    mu = (w @ Y) / w.sum(); S0 = (Y - mu).T @ W @ (Y - mu); cx.closen("total cross products", m.total_sscp, S0, 1e-8); R2 = 1 - np.diag(E) / np.diag(S0); cx.close("R squared", m.rsquared["R2"], R2, 1e-5, 1e-6); cx.close("adjusted R squared", m.rsquared["R2_adj"], 1 - (1 - R2) * (n - 1) / (n - p), 1e-5, 1e-5); cx.close("trace R squared", m.r2_trace, 1 - np.trace(E) / np.trace(S0), 1e-5, 1e-6)
    Si = E / w.sum(); nll = -(w * st.multivariate_normal(np.zeros(q), Si, allow_singular=False).logpdf(R)).sum() if q > 0 else 0; cx.close("log-likelihood at the fit", m.llf, -nll, 1e-7, 1e-5); k = p * q + q * (q + 1) // 2; cx.close("information criteria", [m.aic, m.bic], [2 * nll + 2 * k, 2 * nll + k * np.log(n)], 1e-7, 1e-4)
    V = np.kron(Si, C); cx.closen("coefficient covariance", m.beta_cov, V, 1e-3 if mle else 1e-5); cx.close("standard errors", m.beta_se, np.sqrt(np.diag(V)), 1e-3 if mle else 1e-5); T = m.res; cx.close("table coefficients", T.iloc[:p * q, 0], B.T.ravel(), tol, tol * (1 + np.abs(B).max()));
    t = m.params + .2 * r.normal(size=len(m.params)); scl = np.full(len(t), .1); Lm = np.zeros((q, q)); Lm[np.tril_indices(q)] = t[p * q:]; Lm[np.diag_indices(q)] = np.exp(np.diag(Lm)); Om = Lm @ Lm.T
    def ll_i(th): L = np.zeros((q, q)); L[np.tril_indices(q)] = th[p * q:]; L[np.diag_indices(q)] = np.exp(np.diag(L)); U = (Y - X @ th[:p * q].reshape(q, p).T) @ L; return w * (.5 * (U * U).sum(1) + .5 * q * np.log(2 * np.pi) - np.log(np.diag(L)).sum())
    cx.close("objective", m.loglike(t), ll_i(t).sum(), 1e-8, 1e-7); f = lambda z: np.array(ll_i(z).sum()); g = m.gradient(t); cx.deriv("gradient", g, f, t, 1e-5, 1e-6 * (1 + abs(ll_i(t).sum())), scl); gi = m.gradient_i(t); cx.close("scores add up", np.abs(gi.sum(0)), np.abs(g), 1e-7, 1e-6 * (1 + np.abs(g).max())); D = nderiv(ll_i, t, scl)[0]; s = np.sign(np.sum(gi * D.reshape(gi.shape))); cx.close("per-observation scores", gi, s * D.reshape(gi.shape), 1e-4, 1e-5 * (1 + np.abs(D).max())); cx.deriv("Hessian", m.hessian(t), lambda z: m.gradient(z), t, 1e-5, 1e-6 * (1 + np.abs(g).max()), scl)
    Xn = r.normal(size=(3, p)); cx.close("prediction", m.predict(Xn), Xn @ m.beta, 1e-9, 1e-9); M = r.normal(size=(q, int(r.integers(1, q + 1)))) if r.random() < .5 else None; Lc = r.normal(size=(int(r.integers(1, p + 1)), p)); manova(cx, m.test_hypothesis(Lc, M), m.beta, C, E, Lc, M, n - p)
    if p > 1:
        for j in range(1, p): Lj = np.eye(p)[[j]]; manova(cx, m.mv_tests.xs(m.mv_tests.index.get_level_values(0).unique()[j - 1], level=0), m.beta, C, E, Lj, None, n - p)
        La = np.eye(p)[1:]; key = "Regression" if p > 2 else m.mv_tests.index.get_level_values(0)[0]; lam = manova(cx, m.mv_tests.xs(key, level=0), m.beta, C, E, La, None, n - p); rho2 = lam / (1 + lam); sdim = min(q, p - 1); rho2 = rho2[:sdim]
        cc = m.canonical_corr; cx.close("canonical correlations", cc, np.sqrt(rho2)[:len(cc)], 1e-4, 1e-5); wl = np.prod(1 - rho2); a = m.assoc["Value"]; hl = lam[:sdim].sum(); cx.close("association measures", [a["Wilks' lambda"], a["Pillai's trace"], a["Hotelling-Lawley trace"], a["Roy's greatest root"], a["Generalized R2 (1 - Wilks)"], a["Eta-squared (Wilks)"], a["Eta-squared (Pillai)"], a["Eta-squared (Hotelling)"], a["Eta-squared (Roy)"]], [wl, rho2.sum(), hl, lam[0], 1 - wl, 1 - wl ** (1 / sdim), rho2.sum() / sdim, hl / sdim / (1 + hl / sdim), rho2[0]], 1e-5, 1e-6); cx.close("generalized R squared", m.r2_det, 1 - wl, 1e-5, 1e-6)
        if not wt: cx.close("generalized R squared from determinants", m.r2_det, 1 - np.linalg.det(E) / np.linalg.det(S0), 1e-5, 1e-6)


@workload("bias-corrected bootstrap intervals", quick=150, thorough=3000)
def bca(cx):
    r = cx.rng; k = int(r.integers(1, 5)); B = int(r.integers(100, 600)); n = int(r.integers(5, 40)); th = r.normal(size=k); S = th + r.normal(size=(B, k)) ** (3 if r.random() < .3 else 1) + r.normal(size=k) * .3; J = th + r.exponential(size=(n, k)) / n; al = float(r.choice([.05, .1, .2])); cx.case([k, al], B=B); got = output.compute_bias_corrected_bootstrap_intervals(th, J, S, alpha=al); d = st.norm
    for j in range(k):
        fr = (S[:, j] < th[j]).mean()
        if fr in (0, 1): continue
        z0 = d.ppf(fr); u = J[:, j].mean() - J[:, j]; a = (u ** 3).sum() / (6 * (u ** 2).sum() ** 1.5); z = z0 + d.ppf([al / 2, 1 - al / 2]); want = np.quantile(S[:, j], d.cdf(z0 + z / (1 - a * z))); cx.close("BCa interval", got[j], want, 1e-6, 1e-6); cx.ok("ordered", got[j, 0] <= got[j, 1])
    Rr = output.compute_bias_corrected_bootstrap_intervals(-th, -J, -S, alpha=al)
    if np.all((S != th).all()): cx.close("equivariant under reflection", Rr, -got[:, ::-1], 1e-5, 1e-5)
