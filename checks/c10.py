"""C10: GLM fits against an independent likelihood, KKT and inference oracle (both generations)."""
import numpy as np, scipy as sp, scipy.stats as st, pandas as pd
from vlib.mon import workload, nderiv
from vlib import glmo
from pystatsm.pyglm2 import glm as g2, families as f2, links as l2
from pystatsm.pyglm import glm as g1, families as f1, links as l1


def flink(L, nm): return dict(identity=L.IdentityLink, logit=L.LogitLink, probit=L.ProbitLink, log=L.LogLink, reciprocal=L.ReciprocalLink, cloglog=L.CloglogLink, invsq=lambda: L.PowerLink(-2), sqrt=lambda: L.PowerLink(.5))[nm]()


def gen(cx, weighted=None, n=None, confs=None):
    r = cx.rng; confs = confs or glmo.CONF; fam, link = confs[int(r.integers(len(confs)))]; n = n or int(r.integers(40, 140)); p = int(r.integers(1, 5)); weighted = bool(r.integers(2)) if weighted is None else weighted
    if fam == "Binomial" and n < 60: n = 60
    X, y, w, b, phi, disp = glmo.data(r, fam, link, n, p, weighted); sc = "fixed" if fam in ("Poisson", "Binomial") else "NR" if fam == "NegativeBinomial" else str(r.choice(["M", "NR", "fixed"]))
    if fam == "Binomial":   # keep clear of separation
        for _ in range(8):
            if 3 < (w * y).sum() < w.sum() - 3: break
            X, y, w, b, phi, disp = glmo.data(r, fam, link, n, p, weighted)
    if y.std() == 0: cx.skip("constant response")
    return r, fam, link, X, y, w, b, phi, disp, sc


def score(fam, link, X, y, w, b, phi, disp):
    e = X @ b; mu = glmo.INV[link](e); d = glmo.DINV[link](e); v = glmo.V(fam, mu, disp); g = -X.T @ (w * (y - mu) * d / (v * phi)); return g, (X * (w * d * d / (v * phi))[:, None]).T @ X, mu


CANON = {("Gaussian", "identity"), ("Poisson", "log"), ("Binomial", "logit")}


def kkt(cx, fam, link, X, y, w, beta, phi, disp, tol=2e-3):
    g, I, mu = score(fam, link, X, y, w, beta, phi, disp); s = np.linalg.solve(I, g); u = np.abs(s) / np.sqrt(np.diag(np.linalg.inv(I))); cx.ok("score is zero", np.all(u < tol), lambda: f"{fam}/{link}: scaled score {u}"); return mu


@workload("objective and derivatives", quick=240, thorough=4000, shards=3)
def obj(cx):
    r, fam, link, X, y, w, b, phi, disp, sc = gen(cx); cx.case([fam, link, sc, X.shape[1], bool((w != 1).any())], n=len(y)); m = g2.GLM(X=X, y=y, family=getattr(f2, fam)(link=flink(l2, link)), scale_estimator=sc, weights=w)
    t = b + r.normal(size=len(b)) * .05; S = "fixed" if sc == "M" else sc; full = np.r_[t, np.log(disp if fam == "NegativeBinomial" else phi) + .2 * r.normal()] if S == "NR" else t
    def nll(th): be = th[:X.shape[1]]; s = np.exp(th[-1]) if S == "NR" else 1.0; return glmo.nll_i(fam, y, glmo.INV[link](X @ be), w, 1.0 if fam == "NegativeBinomial" else s, s).sum()
    if not np.isfinite(nll(full)): cx.skip("outside the domain")
    dat = (X, y, w)
    cx.close("objective is the negative log-likelihood", m.full_loglike(full, data=dat, scale_estimator=S), nll(full), 1e-8, 1e-7); cx.close("own data by default", m.full_loglike(full, scale_estimator=S), nll(full), 1e-8, 1e-7); o = full * 1.01
    cx.close("kernel differs by a constant", m.loglike(full, scale_estimator=S) - m.loglike(np.r_[o[:X.shape[1]], full[X.shape[1]:]], scale_estimator=S), nll(full) - nll(np.r_[o[:X.shape[1]], full[X.shape[1]:]]), 1e-6, 1e-6)
    scl = np.full(len(full), .2); f0 = lambda z: np.array(nll(z)); G = m.gradient(full, scale_estimator=S); cx.deriv("gradient", G, f0, full, 1e-6, 1e-6, scl); Gi = m.gradient_i(full, scale_estimator=S); cx.close("per-observation scores add up", Gi.sum(0), G, 1e-9, 1e-8); cx.deriv("per-observation scores", Gi, lambda th: glmo.nll_i(fam, y, glmo.INV[link](X @ th[:X.shape[1]]), w, 1.0 if fam == "NegativeBinomial" or S != "NR" else np.exp(th[-1]), np.exp(th[-1]) if S == "NR" else 1.0), full, 1e-6, 1e-6, scl)
    H = m.hessian(full, scale_estimator=S); cx.deriv("Hessian", H, lambda z: m.gradient(z, scale_estimator=S), full, 1e-6, 1e-6, scl); cx.closen("Hessian symmetric", H, H.T, 1e-10)
    pm = r.permutation(len(y)); cx.close("row order", m.full_loglike(full, data=(X[pm], y[pm], w[pm]), scale_estimator=S), nll(full), 1e-9, 1e-8)


@workload("fits, second generation", quick=120, thorough=2000, shards=4, timeout=900)
def fit2(cx):
    r, fam, link, X, y, w, b, phi, disp, sc = gen(cx); n, p = X.shape; cx.case([fam, link, sc, p, bool((w != 1).any())], n=n); frm = r.random() < .4 and p > 1; F = lambda: getattr(f2, fam)(link=flink(l2, link)); X0, y0, w0 = X.copy(), y.copy(), w.copy()
    if frm: df = pd.DataFrame(X[:, 1:], columns=[f"z{j}" for j in range(1, p)]); df["y"] = y; m = g2.GLM("y~" + "+".join(df.columns[:-1]), data=df, family=F(), scale_estimator=sc, weights=w)
    else: m = g2.GLM(X=X, y=y, family=F(), scale_estimator=sc, weights=w)
    m.fit(); NR = sc == "NR"; be = m.beta; ph = m.phi; ds = m.dispersion; cx.ok("inputs untouched", np.array_equal(X, X0) and np.array_equal(y, y0) and np.array_equal(w, w0))
    if m.opt.optimality > 1e-3 and (fam, link) not in CANON: cx.skip("optimizer did not converge")
    mu = kkt(cx, fam, link, X, y, w, be, ph, ds); cx.close("fitted means", m.mu, mu, 1e-8); nl = glmo.nll_i(fam, y, mu, w, ph, ds).sum()
    def nll(th): s = np.exp(th[-1]) if NR else ph; return glmo.nll_i(fam, y, glmo.INV[link](X @ th[:p]), w, 1.0 if fam == "NegativeBinomial" else s, s).sum()
    v = glmo.V(fam, mu, ds); chi2 = np.sum(w * (y - mu) ** 2 / v); cx.close("Pearson statistic", m.chi2, chi2, 1e-8); cx.close("Pearson statistic", m.sumstats.loc["Chi2", "Statistic"], chi2, 1e-8)
    if sc == "M": cx.close("moment scale", ph, chi2 / (n - p), 1e-8)
    th = m.params; scl = np.full(len(th), .2); g, H = glmo.newton(nll, th, scl); C = np.linalg.inv(H)
    if NR: cx.ok("all scores zero", np.all(np.abs(C @ g) < 3e-3 * np.sqrt(np.abs(np.diag(C)))), lambda: (C @ g, np.sqrt(np.abs(np.diag(C)))))
    if np.linalg.eigvalsh(H).min() <= 0: cx.ok("a minimum of the objective", False, lambda: np.linalg.eigvalsh(H)); return
    cx.closen("covariance is the inverse Hessian", m.params_cov, C, 3e-3); cx.close("standard errors", m.params_se, np.sqrt(np.diag(C)), 3e-3); cx.close("coefficient covariance block", m.coefs_cov, m.params_cov[:p, :p], 1e-12); cx.close("coefficient standard errors", m.coefs_se, m.params_se[:p], 1e-12)
    R = m.res; tt = th / m.params_se; cx.close("table", R.values[:, :2], np.c_[th, m.params_se], 1e-10); cx.close("table test statistics", R.values[:, 2], tt, 1e-9); cx.close("table p-values", R.values[:, 3], 2 * st.t(n - len(th)).sf(np.abs(tt)), 1e-8, 1e-300); cx.ok("table has a row per parameter", len(R) == len(th))
    cx.close("log-likelihood", m.llf, nl, 1e-8, 1e-7); sat = glmo.nll_i(fam, y, np.where((y == 0), 1e-300, y) if fam in ("Poisson", "NegativeBinomial") else y, w, ph, ds).sum(); S = m.sumstats["Statistic"]; cx.close("deviance", S["Deviance"], 2 * ph * (nl - sat), 1e-6, 1e-6 * abs(nl))
    k = len(th); cx.close("information criteria", [S[a] for a in ("AIC", "AICC", "BIC", "CAIC")], [2 * nl + 2 * k, 2 * nl + 2 * k * n / (n - k - 1), 2 * nl + k * np.log(n), 2 * nl + k * (np.log(n) + 1)], 1e-9)
    yb = np.sum(w * y) / w.sum()
    if fam != "NegativeBinomial": ln = glmo.nll_i(fam, y, np.full(n, yb), w, ph, ds).sum()
    else: f0 = lambda u: glmo.nll_i(fam, y, np.full(n, np.exp(u[0])), w, 1.0, np.exp(u[1])).sum(); ln = sp.optimize.minimize(f0, [np.log(yb), 0.0], method="Nelder-Mead", options=dict(xatol=1e-8, fatol=1e-10, maxiter=4000)).fun
    cx.close("null log-likelihood", m.lln, ln, 1e-6, 1e-5); cx.close("likelihood-ratio statistic", S["LLR"], 2 * (ln - nl), 1e-5, 1e-4); cx.close("squared correlation of fit", S["R2_SS"], 1 - np.sum((y - mu) ** 2) / np.sum((y - y.mean()) ** 2), 1e-8)
    # residual table
    d = glmo.DINV[link](X @ be); Wt = w * d * d / v; Wh = X * np.sqrt(Wt)[:, None]; h = np.einsum("ij,jk,ik->i", Wh, np.linalg.inv(Wh.T @ Wh), Wh); cx.close("leverages", m.h, h, 1e-6, 1e-8); rp = np.sqrt(w / v) * (y - mu); Q = m.resids
    dv = 2 * ph * (glmo.nll_i(fam, y, mu, w, ph, ds) - glmo.nll_i(fam, y, np.where(y == 0, 1e-300, y) if fam in ("Poisson", "NegativeBinomial") else y, w, ph, ds)); rd = np.sign(y - mu) * np.sqrt(np.maximum(dv, 0)); cx.close("Pearson residuals", Q["Pearson"], rp, 1e-7, 1e-9); cx.close("deviance residuals", Q["Deviance"], rd, 1e-4, 1e-5); cx.close("signed residuals", Q["Signed"], rd, 1e-4, 1e-5); cx.close("raw residuals", Q["Raw"], y - mu, 1e-8, 1e-10)
    cx.close("standardised residuals", Q["PearsonSS"], rp / np.sqrt(ph * (1 - h)), 1e-5, 1e-7); cx.close("standardised deviance residuals", Q["DevianceSS"], rd / np.sqrt(ph * (1 - h)), 1e-3, 1e-5); cx.close("Cook's distances", Q["Cooks"], h * rp ** 2 / (ph * (1 - h) ** 2 * p), 1e-5, 1e-9)
    # predictions
    Xn = X[:7]; lv, lp = float(r.uniform(.5, .99)), float(r.uniform(.5, .99)); P = m._predict(be, Xn, m.f, phi=ph, dispersion=ds, coefs_cov=m.coefs_cov, mean_ci_level=lv, predicted_ci=fam != "Binomial", predicted_ci_level=lp); e = Xn @ be; se = np.sqrt(np.einsum("ij,jk,ik->i", Xn, m.coefs_cov, Xn)); z = st.norm.ppf(.5 + lv / 2); cx.close("linear predictor", P["eta"], e, 1e-10, 1e-12); cx.close("its standard error", P["eta_se"], se, 1e-8); cx.close("mean", P["mu"], glmo.INV[link](e), 1e-9)
    ci = glmo.INV[link](np.c_[e - z * se, e + z * se]); cx.close("mean interval", np.c_[P["mu_lower_ci"], P["mu_upper_ci"]][np.isfinite(ci)], ci[np.isfinite(ci)], 1e-8)
    mm = P["mu"]; q = np.array([.5 - lp / 2, .5 + lp / 2])[:, None]; D = dict(Gaussian=lambda: st.norm(mm, np.sqrt(ph)), InverseGaussian=lambda: st.invgauss(mm * ph, scale=1 / ph), Gamma=lambda: st.gamma(1 / ph, scale=mm * ph), Poisson=lambda: st.poisson(mm), NegativeBinomial=lambda: st.nbinom(1 / ds, 1 / (1 + ds * mm)))
    if fam != "Binomial": cx.close("prediction interval", np.vstack([P["predicted_lower_ci"], P["predicted_upper_ci"]]), D[fam]().ppf(q), 1e-6, 1e-8)
    Gi = m.gradient_i(th); V = m.params_cov @ Gi.T @ Gi @ m.params_cov; cx.close("robust standard errors", m.get_robust_res().values[:, 1], np.sqrt(np.diag(V)), 1e-8)
    gi, _ = nderiv(lambda t_: glmo.nll_i(fam, y, glmo.INV[link](X @ t_[:p]), w, 1.0 if fam == "NegativeBinomial" else np.exp(t_[-1]) if NR else ph, np.exp(t_[-1]) if NR else 1.0), th, scale=scl); cx.close("robust standard errors from the likelihood", m.get_robust_res().values[:, 1], np.sqrt(np.diag(C @ gi.T @ gi @ C)), 1e-2)


@workload("fit invariances", quick=60, thorough=800, shards=4, timeout=900)
def inv(cx):
    r, fam, link, X, y, w, b, phi, disp, sc = gen(cx, weighted=True); n, p = X.shape; cx.case([fam, link, sc, p]); F = lambda: getattr(f2, fam)(link=flink(l2, link))
    def fit(X, y, w, s=sc): m = g2.GLM(X=X, y=y, family=F(), scale_estimator=s, weights=w); m.fit(); return m if m.opt.optimality < 1e-3 or (fam, link) in CANON else cx.skip("optimizer did not converge")
    m = fit(X, y, w); se = m.coefs_se
    if se.max() > 20: cx.skip("nearly separated")
    pm = r.permutation(n); m1 = fit(X[pm], y[pm], w[pm]); cx.ok("row order", np.all(np.abs(m1.beta - m.beta) < 5e-3 * se)); cx.close("row order, standard errors", m1.coefs_se, se, 5e-3); cx.close("row order, log-likelihood", m1.llf, m.llf, 1e-5, 1e-4)
    if link not in ("reciprocal", "invsq", "sqrt"):
        A = np.eye(p) + np.triu(r.normal(size=(p, p)) * .4, 1); A = A * np.exp(r.normal(size=p) * .4); m2 = fit(X @ A, y, w); cx.ok("column recoding", np.all(np.abs(A @ m2.beta - m.beta) < 1e-2 * se), lambda: (A @ m2.beta, m.beta, se)); cx.closen("column recoding, covariance", A @ m2.coefs_cov @ A.T, m.coefs_cov, 1e-2); cx.close("column recoding, log-likelihood", m2.llf, m.llf, 1e-5, 1e-4)
    i = np.repeat(np.arange(n), w.astype(int)); s = "fixed" if sc == "M" else sc
    if fam in ("Poisson", "Binomial", "NegativeBinomial") or s == "fixed": m3, m4 = fit(X[i], y[i], np.ones(len(i)), s), fit(X, y, w, s); cx.ok("integer weights replicate rows", np.all(np.abs(m3.beta - m4.beta) < 1e-2 * m4.coefs_se), lambda: (m3.beta, m4.beta, m4.coefs_se)); cx.closen("integer weights replicate rows, covariance", m3.coefs_cov, m4.coefs_cov, 1e-2)
    # refit on the same object: same answer
    b0 = m.beta.copy(); m.fit(); cx.close("refit", m.beta, b0, 1e-9, 1e-12)


@workload("GLM resampling", quick=12, thorough=120, shards=4, timeout=900)
def boot(cx):
    r, fam, link, X, y, w, b, phi, disp, sc = gen(cx, n=int(cx.rng.integers(40, 60)), confs=[("Gaussian", "identity"), ("Poisson", "log"), ("Gamma", "log"), ("Binomial", "logit")]); n, p = X.shape; cx.case([fam, sc, p, bool((w != 1).any())]); m = g2.GLM(X=X, y=y, family=getattr(f2, fam)(link=flink(l2, link)), scale_estimator=sc, weights=w); m.fit(); s = int(r.integers(1 << 31)); B, _ = m._bootstrap(n_boot=4, verbose=False, rng=np.random.default_rng(s)); q = np.random.default_rng(s)
    for k in range(4): ii = q.choice(n, size=n, replace=True); t = B.values[k]; ph = np.exp(t[-1]) if sc == "NR" else 1.0; kkt(cx, fam, link, X[ii], y[ii], w[ii], t[:p], ph, 1.0, 1e-2) if fam != "Binomial" or np.abs(t).max() < 6 else None
    B2, _ = m._bootstrap(n_boot=4, verbose=False, rng=np.random.default_rng(s)); cx.ok("same generator state, same resamples", np.array_equal(B.values, B2.values))
    J = m._jacknife(verbose=False).values; cx.ok("one row per observation", J.shape == (n, len(m.params)))
    for k in r.choice(n, 5, replace=False): ii = np.arange(n) != k; t = J[k]; kkt(cx, fam, link, X[ii], y[ii], w[ii], t[:p], np.exp(t[-1]) if sc == "NR" else 1.0, 1.0, 1e-2)


@workload("fits, first generation", quick=80, thorough=1200, shards=3, timeout=900)
def fit1(cx):
    r, fam, link, X, y, w, b, phi, disp, sc = gen(cx, confs=[c for c in glmo.CONF if c[0] != "NegativeBinomial" and c not in (("Poisson", "sqrt"), ("Gaussian", "log"), ("InverseGaussian", "invsq"))]); n, p = X.shape
    if sc == "fixed" and fam not in ("Poisson", "Binomial"): sc = "NR"
    wt = bool((w != 1).any()); f = getattr(f1, fam)(link=flink(l1, link), **({"weights": w} if wt else {})); method = str(r.choice(["sp", "mn", "ee"])) if sc != "M" else None; cx.case([fam, link, sc, method, p, wt])
    m = g1.GLM(X=X, Y=y, fam=f, scale_estimator=sc)
    th = np.r_[b + .02 * r.normal(size=p), np.log(phi) + .1] if sc == "NR" else b + .02 * r.normal(size=p); S = np.full(len(th), .2)
    def nll(t, ph=None): s = np.exp(t[-1]) if sc == "NR" else 1.0 if ph is None else ph; return glmo.nll_i(fam, y, glmo.INV[link](X @ t[:p]), w, s).sum()
    if sc != "M" and np.isfinite(nll(th)): cx.close("objective", m.full_loglike(th), nll(th), 1e-8, 1e-7); cx.deriv("gradient", m.gradient(th), lambda z: np.array(nll(z)), th, 1e-6, 1e-6, S); cx.deriv("Hessian", m.hessian(th), m.gradient, th, 1e-6, 1e-6, S); k = r.permutation(n)[: n // 2 + 3]; cx.deriv("Hessian for given data", g1.GLM(X=X[k], Y=y[k], fam=getattr(f1, fam)(link=flink(l1, link)), scale_estimator=sc).hessian(th, X=X[k], Y=y[k]), lambda z: g1.GLM(X=X[k], Y=y[k], fam=getattr(f1, fam)(link=flink(l1, link)), scale_estimator=sc).gradient(z), th, 1e-6, 1e-6, S) if not wt else None
    if method in ("mn", "ee") and sc == "NR": m.theta_init = th.copy()
    m.fit(method=method); be = m.beta; gm = m.optimizer["|g|"][-1] if "|g|" in m.optimizer else np.abs(m.optimizer.grad).max()
    if gm > 1e-4 and (fam, link) not in CANON: cx.skip("optimizer did not converge")
    mu = kkt(cx, fam, link, X, y, w, be, m.phi, 1.0, 5e-3); nl = glmo.nll_i(fam, y, mu, w, m.phi).sum(); k = len(m.params); Q = m.sumstats["Fit Statistic"]; chi2 = np.sum(w * (y - mu) ** 2 / glmo.V(fam, mu, 1))
    if sc == "M": cx.close("moment scale", m.phi, chi2 / (n - p), 1e-7)
    cx.close("Pearson statistic", Q["pearson_chi2"], chi2, 1e-7); cx.close("information criteria", [Q["aic"], Q["aicc"], Q["bic"], Q["caic"]], [2 * nl + 2 * k, 2 * nl + 2 * k * n / (n - k - 1), 2 * nl + k * np.log(n), 2 * nl + k * (np.log(n) + 1)], 1e-8); sat = glmo.nll_i(fam, y, np.where(y == 0, 1e-300, y) if fam == "Poisson" else y, w, m.phi).sum(); cx.close("deviance", Q["deviance"], 2 * m.phi * (nl - sat), 1e-6, 1e-6 * abs(nl))
    if not wt: ln = glmo.nll_i(fam, y, np.full(n, y.mean()), w, m.phi).sum(); cx.close("likelihood-ratio statistic", Q["LLR"], 2 * (ln - nl), 1e-6, 1e-6)
    _, H = glmo.newton(lambda z: nll(z, m.phi), m.params, S); C = np.linalg.inv(H); cx.closen("covariance is the inverse Hessian", m.vcov, C, 5e-3); t = m.params / np.sqrt(np.diag(m.vcov)); cx.close("table", m.res.values, np.c_[m.params, np.sqrt(np.diag(m.vcov)), t, 2 * st.t(n - p).sf(np.abs(t))], 1e-8, 1e-300)
    cx.close("predictions", np.c_[m.predict(kind="lp"), m.predict(kind="mean")], np.c_[X @ be, mu], 1e-9, 1e-12); cx.close("predictions, both", m.predict(kind="both", X=X[:5]), np.c_[X[:5] @ be, mu[:5]], 1e-9, 1e-12); cx.close("Pearson residuals", m.pearson_resid, np.sqrt(w / glmo.V(fam, mu, 1)) * (y - mu), 1e-8, 1e-10)
