"""C14: elastic-net, lasso and LARS solutions against the optimality conditions of their convex objectives."""
import contextlib, io, warnings
import numpy as np, pandas as pd
from vlib.mon import workload
from pystatsm.pyglmnet import glmen2, gaussian_eln as ge, binomial_eln as b1, binom_eln2 as b2, eln_utils as eu, lasso as la, lars as lr, glmen
from pystatsm.pyglm import families as f1


def quiet(f, *a, **k):
    with contextlib.redirect_stderr(io.StringIO()): return f(*a, **k)


def data(r, fam, wide=None, std=True):
    wide = r.random() < .25 if wide is None else wide; n = int(r.integers(25, 40) if wide else r.integers(30, 120)); p = int(r.integers(30, 50) if wide else r.integers(2, 12)); rho = float(r.choice([0, .5, .9, .97])); kind = "wide" if wide else f"rho{rho}"
    Z = r.normal(size=(n, p)); X = np.sqrt(1 - rho) * Z + np.sqrt(rho) * r.normal(size=(n, 1)) if r.random() < .5 else np.linalg.cholesky(rho ** np.abs(np.subtract.outer(range(p), range(p))) if rho else np.eye(p)).dot(Z.T).T
    X = X * np.sign(r.normal(size=p)); X = (X - X.mean(0)) / X.std(0)
    if not std: X = X * np.exp(r.normal(size=p) * .5)
    b = r.normal(size=p) * (r.random(p) < .5); e = X @ b; e = e / max(e.std(), .3) * .8 + .3 * r.normal(); y = e + r.normal(size=n) * .7 if fam == "Gaussian" else r.poisson(np.exp(np.minimum(e, 2.5))).astype(float) if fam == "Poisson" else (r.random(n) < 1 / (1 + np.exp(-e))).astype(float)
    if fam == "Binomial" and not 5 < y.sum() < n - 5: y[:6] = 1.; y[6:12] = 0.
    return kind, X, y


INV = dict(Gaussian=lambda e: e, Poisson=np.exp, Binomial=lambda e: 1 / (1 + np.exp(-e)))
def half_dev(fam, y, e, w): return float(w @ (dict(Gaussian=lambda: .5 * (y - e) ** 2, Poisson=lambda: np.exp(e) - y * e + np.where(y > 0, y * np.log(np.maximum(y, 1)) - y, 0), Binomial=lambda: np.logaddexp(0, e) - y * e)[fam]()))
def pen(b, lam, al): return lam * (al * np.abs(b).sum() + .5 * (1 - al) * b @ b)


def kkt(cx, fam, X, y, w, b0, b, lam, al, tol=1e-4, intercept=True, zero="zero coefficients", abs_=1e-6, nearby=True, tag=""):
    """Subgradient conditions of half_dev + pen; tol relative to lam*al."""
    e = X @ b + b0; m = INV[fam](e); g = X.T @ (w * (m - y)); t = lam * al; nz = b != 0; sl = tol * t + abs_
    v = g + lam * (1 - al) * b + t * np.sign(b); cx.ok(tag + "stationarity of nonzero coefficients", np.all(np.abs(v[nz]) <= sl), lambda: f"lam={lam} alpha={al} residual {np.abs(v[nz]).max()} allowed {sl}"); cx.ok(tag + "optimality of " + zero, np.all(np.abs(g[~nz]) <= t + sl), lambda: f"lam={lam} alpha={al} |gradient| {np.abs(g[~nz]).max()} > {t}")
    if intercept: cx.ok(tag + "intercept stationarity", abs(w @ (m - y)) <= sl + 1e-6, lambda: (w @ (m - y), sl))
    if nearby and (nz.all() or np.all(np.abs(g[~nz]) <= t + sl)):
        r = cx.rng; F = lambda B, B0: half_dev(fam, y, X @ B + B0, w) + pen(B, lam, al); f0 = F(b, b0); k = [F(b + r.normal(size=len(b)) * s * (r.random(len(b)) < .5), b0 + s * r.normal() * intercept) for s in (1e-3, 1e-2, .1)]; cx.ok(tag + "no nearby point is better", min(k) >= f0 - 1e-5 * sl / (abs_ + 1e-12) * 1e-3 - 1e-7 * (1 + abs(f0)), lambda: (f0, k))


TIGHT = dict(n_iters=3000, ftol=1e-15, inner_kws=dict(max_iters=20000, dtol=1e-22))


@workload("generalized linear elastic net, one penalty", quick=100, thorough=2500, shards=3)
def single(cx):
    r = cx.rng; fam = str(r.choice(["Gaussian", "Poisson", "Binomial"])); kind, X, y = data(r, fam, std=False); n, p = X.shape; al = float(r.choice([1., .99, .7, .3])); wt = r.random() < .4; w = r.uniform(.3, 2, n) if wt else np.ones(n); cx.case([fam, kind, al, wt]); X0 = X.copy(); m = glmen2.ElasticNetGLM(X=X, y=y, family=getattr(f1, fam)(), wobs=w if wt else None, alpha=al); w = w / w.sum(); Z = (X - X.mean(0)) / X.std(0); cx.close("standardized columns", m.X, Z, 1e-10, 1e-12)
    lams, nd, b0, *_ = m.get_start_param(50); ym = w @ y; want = np.abs(Z.T @ (w * (y - ym))).max() / al; cx.close("largest penalty", lams[0], want, 1e-8); cx.ok("penalties decrease", np.all(np.diff(lams) < 0) and len(lams) == 50); cx.close("null deviance", nd, 2 * half_dev(fam, y, np.full(n, dict(Gaussian=ym, Poisson=np.log(max(ym, 1e-300)), Binomial=np.log(ym / (1 - ym)))[fam]), w), 1e-6, 1e-8)
    lam = lams[0] * float(np.exp(-r.uniform(.01, 4 if kind != "wide" else 2.5))); s = b0.copy(); prev = None
    for k in range(60):   # restart from the reported solution until it is a fixed point
        b, h = m._glm_elnet(s.copy(), m.X, m.X ** 2, y, w, lam, lams[0], **TIGHT)
        if prev is not None and np.abs(b - prev).max() < 1e-9: break
        prev = b; s = b
    if len(h) > TIGHT["n_iters"]: cx.skip("not converged")
    f = [q[0] for q in h]; kkt(cx, fam, Z, y, w, b[0], b[1:], lam, al, 1e-3, abs_=2e-6); F = half_dev(fam, y, Z @ b[1:] + b[0], w) + pen(b[1:], lam, al); cx.close("reported objective", f[-1], F, 1e-7, 1e-8); cx.close("objective function", m.obj_func(b, lam), F, 1e-8, 1e-9); cx.close("penalty function", m.pen_func(b, lam), pen(b[1:], lam, al), 1e-10, 1e-13); cx.ok("inputs untouched", np.array_equal(X, X0)); cx.note("nonzero", int((b[1:] != 0).sum()))
    t = np.r_[b[0], b[1:] + .3 * r.normal(size=p)]
    if np.abs(t).min() > 1e-2 and np.abs(Z @ t[1:] + t[0]).max() < 30:
        sc = np.full(p + 1, 2e-3); ob = lambda z: np.array(m.obj_func(z, lam)); cx.close("objective off the solution", ob(t), half_dev(fam, y, Z @ t[1:] + t[0], w) + pen(t[1:], lam, al), 1e-8, 1e-9); cx.deriv("gradient of the objective", m.obj_grad(t, lam), ob, t, 1e-5, 1e-6, sc); cx.deriv("gradient of half the deviance", m.dev_grad(t, lam), lambda z: np.array(half_dev(fam, y, Z @ z[1:] + z[0], w)), t, 1e-5, 1e-6, sc); cx.deriv("Hessian of the objective", m.obj_hess(t, lam), lambda z: m.obj_grad(z, lam), t, 1e-5, 1e-6, sc); cx.close("gradient of the penalty", m.pen_grad(t, lam), lam * ((1 - al) * t[1:] + al * np.sign(t[1:])), 1e-10)
    bz, _ = m._glm_elnet(b0.copy(), m.X, m.X ** 2, y, w, lams[0] * 1.0001, lams[0], **TIGHT); cx.ok("largest penalty gives an empty model", np.all(bz[1:] == 0), bz)


@workload("generalized linear elastic net, path and folds", quick=20, thorough=300, shards=4, timeout=900)
def path(cx):
    r = cx.rng; fam = str(r.choice(["Gaussian", "Poisson", "Binomial"])); kind, X, y = data(r, fam, wide=False); n, p = X.shape; al = float(r.choice([.99, .6])); wt = r.random() < .3; w = r.uniform(.3, 2, n) if wt else np.ones(n); nl = int(r.integers(6, 15)); cv = int(r.integers(2, 5)); cx.case([fam, kind, al, wt]); m = glmen2.ElasticNetGLM(X=X, y=y, family=getattr(f1, fam)(), wobs=w if wt else None, alpha=al); w = w / w.sum(); kw = dict(n_iters=1000, ftol=1e-14, inner_kws=dict(max_iters=5000, dtol=1e-20)); quiet(m.fit, n_lambdas=nl, cv=cv, lambda_min_ratio=.01, kws=kw)
    cx.ok("largest penalty gives an empty model", np.all(m.betas[0, 1:] == 0), m.betas[0]); j = m.lmin_idx; cx.ok("selected coefficients are the path entry with least cross-validated deviance", np.array_equal(m.beta, m.betas[j]) and m.lmin == m.lambdas[j] and m.f_paths.mean(axis=(1, 2)).argmin() == j); cx.close("fitted means", m.mu, INV[fam](m.X @ m.beta[1:] + m.beta[0]), 1e-8); dv = np.array([2 * half_dev(fam, y, m.X @ b[1:] + b[0], w) for b in m.betas]); cx.close("path deviances", m.dev_vals, dv, 1e-6, 1e-8); cx.close("deviance ratios", m.dev_ratios, 1 - dv / m.null_dev, 1e-6, 1e-8)
    bt, fv, _ = quiet(m._glm_elnet_path, m.X, m.Xsq, y, w, m.lambdas, kws=kw)
    for i, lam in enumerate(m.lambdas): kkt(cx, fam, m.X, y, w, bt[i, 0], bt[i, 1:], lam, al, 2e-3, zero="coefficients dropped along the path", abs_=2e-5, nearby=False); cx.close("reported path objective", fv[i, 0], half_dev(fam, y, m.X @ bt[i, 1:] + bt[i, 0], w) + pen(bt[i, 1:], lam, al), 1e-6, 1e-8)
    folds = eu.kfold_indices(n, cv, y, categorical=fam == "Binomial"); B, fc, _ = quiet(m._glm_elnet_cv, m.X, m.Xsq, y, w, m.lambdas, cv=cv, n_rep=1, kws=kw); cx.ok("fold shapes", B.shape == (1, cv, nl, p + 1) and fc.shape == (1, nl, cv))
    for k, (a, v) in enumerate(folds):
        Z = (m.X[a] - m.X[a].mean(0)) / m.X[a].std(0)
        for i, lam in enumerate(m.lambdas): kkt(cx, fam, Z, y[a], w[a], B[0, k, i, 0], B[0, k, i, 1:], lam, al, 5e-3, zero="coefficients dropped along the path", abs_=3e-5, nearby=False, tag="fold "); cx.close("held-out deviance", fc[0, i, k], 2 * half_dev(fam, y[v], m.X[v] @ B[0, k, i, 1:] + B[0, k, i, 0], w[v]) / w[v].sum(), 1e-6, 1e-8)


@workload("Gaussian elastic net", quick=150, thorough=4000, shards=2)
def gauss(cx):
    r = cx.rng; kind, X, y = data(r, "Gaussian", std=r.random() < .6); n, p = X.shape; al = float(r.choice([1., .99, .7, .3])); ic = bool(r.integers(2)); y = y + 3 * ic; yc = y - y.mean() if ic else y; lmax = np.abs(X.T @ yc).max() / n / al; lam = lmax * float(np.exp(-r.uniform(.02, 4))); st = str(r.choice(["default", "zero", "random"])); b = None if st == "default" else np.zeros(p) if st == "zero" else r.normal(size=p); cx.case([kind, al, ic, st]); w = np.full(n, 1 / n); N = 20000
    be, fv, act, nit = ge.elnet(X, y, lam, al, b=b, n_iters=N, dtol=1e-17, intercept=ic)
    if nit >= N - 1: cx.skip("not converged")
    kkt(cx, "Gaussian", X, yc, w, 0., be, lam, al, 1e-3, intercept=False, abs_=1e-6); msr = half_dev("Gaussian", yc, X @ be, w); P = pen(be, lam, al); cx.close("reported objective pieces", fv[-1], [msr, P, msr + P], 1e-7, 1e-9); cx.ok("objective never increases", np.all(np.diff(fv[:, 2]) <= 1e-9 * (1 + fv[0, 2]))); cx.close("objective helper", ge.elnet_loglike(X, yc, be, al, lam), [msr, P, msr + P], 1e-9, 1e-12)
    t = r.normal(size=p); cx.close("gradient helper", ge.elnet_grad(t, X, y, lam, al), X.T @ (X @ t - y) / n + lam * (1 - al) * t + lam * al * np.sign(t), 1e-9, 1e-10); bz, *_ = ge.elnet(X, y, lmax * 1.0001, al, b=np.zeros(p), dtol=1e-17, intercept=ic); cx.ok("largest penalty gives an empty model", np.all(bz == 0)); cx.note("nonzero", int((be != 0).sum()))


@workload("Gaussian path and interface", quick=16, thorough=200, shards=2, timeout=900)
def gpath(cx):
    r = cx.rng; kind, X, y = data(r, "Gaussian", wide=False); n, p = X.shape; al = float(r.choice([.99, .6])); cv = int(r.integers(2, 5)); sr, ws = bool(r.integers(2)), bool(r.integers(2)); cx.case([kind, al, sr, ws]); bc, _, fv, lams, be, _, ni = ge.cv_glmnet(cv, X, y, al, lambdas=12, dtol=1e-16, n_iters=20000, path_len=.01, seq_rule=sr, warm_start=ws); yc = y - y.mean(); lmax = np.abs(X.T @ yc).max() / n / al; cx.close("largest penalty", lams[0], lmax, 1e-8); w = np.full(n, 1 / n); cx.ok("largest penalty gives an empty model", np.all(np.abs(be[0]) < 1e-9), be[0]); Xf, yf, Xt, yt = eu.crossval_mats(X, y, n, cv)
    for i, lam in enumerate(lams):
        kkt(cx, "Gaussian", X, yc, w, 0., be[i], lam, al, 2e-3, intercept=False, abs_=1e-5, nearby=False)
        for k in range(cv):
            a, c = Xf[k], yf[k] - yf[k].mean(); kkt(cx, "Gaussian", a, c, np.full(len(c), 1 / len(c)), 0., bc[i, k], lam, al, 2e-3, intercept=False, abs_=1e-5, nearby=False, tag="fold "); v = yt[k] - yt[k].mean(); cx.close("held-out error and penalty", fv[i, k, :2], [np.mean((v - Xt[k] @ bc[i, k]) ** 2), pen(bc[i, k], lam, al)], 1e-7, 1e-9)
    s, lmin = eu.process_cv(fv[:, :, 0], lams); cx.close("cross-validation summary", s.to_numpy(), np.c_[fv[:, :, 0].mean(1), fv[:, :, 0].std(1, ddof=1) / np.sqrt(cv)], 1e-9); cx.ok("selected penalty minimizes the mean", lmin == lams[fv[:, :, 0].mean(1).argmin()])
    m = glmen.GLMEN(X=X, y=y, family="gaussian"); lam = float(lams[5]); m.fit(lam, al, dtol=1e-17, n_iters=0) if False else m.fit(lam, al, dtol=1e-17); 
    if len(m.fvals) < 1000: kkt(cx, "Gaussian", X, yc, w, 0., m.beta, lam, al, 1e-2, intercept=False, abs_=1e-5, nearby=False); cx.close("interface objective", m.fvals[-1][2], half_dev("Gaussian", yc, X @ m.beta, w) + pen(m.beta, lam, al), 1e-6); cx.ok("interface active set", np.array_equal(np.asarray(m.active)[m.beta != 0], np.ones((m.beta != 0).sum(), bool))); cx.close("interface prediction", m.predict(), X @ m.beta + y.mean(), 1e-9)


@workload("binomial elastic nets", quick=90, thorough=2000, shards=3)
def binom(cx):
    r = cx.rng; kind, X, y = data(r, "Binomial"); n, p = X.shape; al = float(r.choice([.99, .7, .4])); v = str(r.choice(["first", "second", "second weighted", "path"])); w = r.uniform(.3, 3, n) if v == "second weighted" or (v == "path" and r.random() < .5) else np.ones(n); cx.case([kind, al, v]); wn = w / w.sum(); ym = wn @ y; lmax = np.abs(X.T @ (wn * (y - ym))).max() / al; lam = lmax * float(np.exp(-r.uniform(.02, 3 if kind != "wide" else 2)))
    if v == "first":
        b, b0, act, fv, k = b1.binom_glmnet(X, y, lam, al, n_iters=20000, btol=1e-22, dtol=0.)
        if k >= 19998: cx.skip("not converged")
        kkt(cx, "Binomial", X, y, wn, b0, b, lam, al, 1e-3, abs_=1e-5); e = X @ b + b0; ll, P, f = b1.binom_eval(y, e, b, al, lam); h = half_dev("Binomial", y, e, wn); cx.close("objective pieces", [ll, P, f], [2 * h, pen(b, lam, al), h + pen(b, lam, al)], 1e-7, 1e-9); bz = b1.binom_glmnet(X, y, lmax * 1.0001, al, n_iters=500, btol=1e-20, dtol=0.)[0]; cx.ok("largest penalty gives an empty model", np.all(bz == 0))
    elif v.startswith("second"):
        kw = dict(n_iters=2000, dtol=1e-20, ftol=1e-14, max_iters=5000); b, fv, _, sh = b2.binom_elnet(X, y, lam, al, weights=w if "weighted" in v else None, cd_kws=kw)
        if len(fv) >= 2000: cx.skip("not converged")
        kkt(cx, "Binomial", X, y, wn, b[0], b[1:], lam, al, 1e-3, abs_=1e-5); cx.close("reported objective", fv[-1], half_dev("Binomial", y, X @ b[1:] + b[0], wn) + pen(b[1:], lam, al), 1e-6, 1e-8); bz = b2.binom_elnet(X, y, lmax * 1.0001, al, weights=w if "weighted" in v else None, cd_kws=kw)[0]; cx.ok("largest penalty gives an empty model", np.all(bz[1:] == 0))
    else:
        Xr = X * np.exp(r.normal(size=p)) + r.normal(size=p); kw = dict(n_iters=2000, dtol=1e-18, ftol=1e-14, max_iters=5000); B, fv, hist, lams = quiet(b2.binom_elnet_path, Xr, y, w, al, lambdas=8, cd_kws=kw); cx.close("largest penalty", lams[0], lmax, 1e-7); cx.ok("largest penalty gives an empty model", np.all(np.abs(B[0, 1:]) < 1e-7), B[0])
        for i in range(1, 8):
            if lams[i] < (.02 if kind != "wide" else .1) * lmax or len(hist[i]) >= 2000: continue
            kkt(cx, "Binomial", X, y, wn, B[i, 0], B[i, 1:], lams[i], al, 2e-3, abs_=1e-5, nearby=False, tag="path "); cx.close("reported path objective", fv[i], half_dev("Binomial", y, X @ B[i, 1:] + B[i, 0], wn) + pen(B[i, 1:], lams[i], al), 1e-6, 1e-8)


@workload("lasso and LARS", quick=150, thorough=4000, shards=2)
def lars(cx):
    r = cx.rng; kind, X, y = data(r, "Gaussian", wide=False, std=False); n, p = X.shape; v = str(r.choice(["prox", "accelerated", "lars", "lar"])); cx.case([v, kind]); w = np.full(n, 1 / n)
    if v in ("prox", "accelerated"):
        lam = np.abs(X.T @ y).max() / n * float(np.exp(-r.uniform(.05, 3))); XtX, Xty = X.T @ X, X.T @ y; L = np.linalg.eigvalsh(XtX / n)[-1]; f = la.lasso_prox_grad if v == "prox" else la.lasso_accelerated_grad; N = 4000; b, h = f(np.zeros(p), X, y, Xty, XtX, lam, L, N, 1e-11, 1e-13)
        F = half_dev("Gaussian", y, X @ b, w); P = lam * np.abs(b).sum()
        if h.shape[0] > N or (v == "accelerated" and h[-1, 2] > h[-2, 2]): cx.skip("not reported as converged")
        kkt(cx, "Gaussian", X, y, w, 0., b, lam, 1., 1e-3, intercept=False, abs_=1e-5); i = -1 if h[-1, 2] <= h[-2, 2] else -2; cx.close("reported objective pieces", h[i], [F, P, F + P], 1e-7, 1e-10); cx.close("objective helper", la.lasso_obj(b, X, y, lam), [F, P, F + P], 1e-10)
        if v == "prox": cx.ok("objective never increases", np.all(np.diff(h[:-1, 2]) <= 1e-12 * (1 + h[0, 2])))
        return
    norm, std = bool(r.integers(2)), bool(r.integers(2)); X = X + r.normal(size=p); y = y + 2; lams, act, B = lr.lars(X, y, method="lasso" if v == "lars" else "lar", normalize=norm, standardize=std); Z = X - X.mean(0); Z = Z / Z.std(0) if std else Z; Z = Z / np.sqrt(n) if norm else Z; yc = y - y.mean(); C = np.abs(Z.T @ (yc[:, None] - Z @ B.T)) / n; cx.ok("path starts at the empty model", np.all(B[0] == 0)); cx.close("largest penalty", lams[0], C[:, 0].max(), 1e-8); cx.ok("penalties do not increase", np.all(np.diff(lams) <= 1e-9 * lams[0])); cx.note("steps", len(lams))
    o = np.linalg.lstsq(Z, yc, rcond=None)[0]; cx.close("path ends at least squares", B[-1], o, 1e-5, 1e-6 * (1 + np.abs(o).max()))
    for i in range(len(lams)):
        nz = np.abs(B[i]) > 1e-10 * (1 + np.abs(B).max()); cx.ok("active correlations equal the penalty", np.all(np.abs(C[nz, i] - lams[i]) <= 1e-6 * lams[0]), lambda: (i, C[:, i], lams[i])); cx.ok("no correlation exceeds the penalty", np.all(C[:, i] <= lams[i] + 1e-6 * lams[0]), lambda: (i, C[:, i], lams[i]))
        if v == "lars": cx.ok("correlation signs match", np.all(np.sign(Z.T @ (yc - Z @ B[i]))[nz & (C[:, i] > 1e-6 * lams[0])] == np.sign(B[i])[nz & (C[:, i] > 1e-6 * lams[0])]))
    if v == "lars":
        for lam in lams[0] * np.exp(-r.uniform(.01, 3, 3)):   # solutions are piecewise linear in the penalty
            j = min(np.searchsorted(-lams, -lam), len(lams) - 1); t = (lams[j - 1] - lam) / (lams[j - 1] - lams[j]) if lams[j - 1] > lams[j] else 1.; b = B[j - 1] + t * (B[j] - B[j - 1]); b[np.abs(b) < 1e-9] = 0; kkt(cx, "Gaussian", Z, yc, w, 0., b, lam, 1., 1e-4, intercept=False, abs_=1e-6 * lams[0], nearby=False, tag="interpolated ")


@workload("cross-validation folds", quick=200, thorough=8000)
def folds(cx):
    r = cx.rng; n = int(r.integers(4, 80)); k = int(r.integers(2, min(n, 12) + 1)); cat = bool(r.integers(2)); rnd = bool(r.integers(2)); y = r.integers(0, int(r.integers(1, 4)) + 1, n).astype(float) if cat else r.normal(size=n); cx.case([cat, rnd, n < k * 2]); f = eu.kfold_indices(n, k, y, categorical=cat, randomize=rnd, random_state=np.random.default_rng(int(r.integers(1e9))) if r.random() < .5 else None); cx.ok("number of folds", len(f) == k); v = np.concatenate([b for _, b in f]); cx.ok("validation folds partition the observations", np.array_equal(np.sort(v), np.arange(n)), v)
    for a, b in f: cx.ok("training rows are the complement", np.array_equal(np.sort(np.concatenate([a, b])), np.arange(n)))
    if cat:
        for c in np.unique(y): z = [np.sum(y[b] == c) for _, b in f]; cx.ok("classes are balanced over folds", max(z) - min(z) <= 1, z)
    else: z = [len(b) for _, b in f]; cx.ok("folds are balanced", max(z) - min(z) <= 1)
    X = r.normal(size=(n, 2)); Xf, yf, Xt, yt = eu.crossval_mats(X, y, n, k, categorical=cat); cx.close("split matrices partition the rows", np.sort(np.concatenate(Xt)[:, 0]), np.sort(X[:, 0]), 0)
    for a, b, c, d in zip(Xf, yf, Xt, yt): cx.ok("rows keep their response", set(zip(np.r_[a, c][:, 0], np.r_[b, d])) == set(zip(X[:, 0], y)))
