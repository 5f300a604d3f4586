"""C17: factor-analysis discrepancy, derivatives, fits, scores and indices against own normal-theory algebra."""
import numpy as np, pandas as pd, scipy as sp, scipy.optimize as so, scipy.stats as st
from vlib.mon import workload
from pystatsm.pyfa2.likelihood import MLEstimator
from pystatsm.pyfa2.layout import ParamLayout
from pystatsm.pyfa import efa, factor_analysis as fa1, fit_measures as fm


def dims(r, pmax=9):
    while True:
        p = int(r.integers(3, pmax)); m = int(r.integers(1, 4))
        if (p - m) ** 2 - (p + m) > 0: return p, m


def truth(r, p, m, obl=False):
    L = r.normal(size=(p, m)) * .25; L[np.arange(p), np.arange(p) % m] += r.uniform(.6, 1., p) * r.choice([-1, 1], p); Phi = np.eye(m)
    if obl and m > 1: A = np.eye(m) + r.uniform(-.4, .4, (m, m)); Phi = A @ A.T; d = 1 / np.sqrt(np.diag(Phi)); Phi = Phi * d * d[:, None]
    return L, Phi, r.uniform(.3, 1., p)


def cov_(r, p, m, scale=True, lo=150):
    L, Phi, psi = truth(r, p, m, True); n = int(r.integers(lo, 800)); S = L @ Phi @ L.T + np.diag(psi); sc = float(10. ** r.integers(-2, 3)) if scale else 1.; X = r.multivariate_normal(np.zeros(p), S, size=n) * np.sqrt(sc) * (r.uniform(.5, 2, p) if scale else 1.) + r.normal() * 3; return X, np.cov(X.T, bias=True), n


def disc(S, Sig): return np.linalg.slogdet(Sig)[1] + np.trace(np.linalg.solve(Sig, S))
def imp(L, Phi, psi): return L @ Phi @ L.T + np.diag(psi)
def vech(A): return A.T[np.triu_indices(len(A))]
def low(A, k=-1): return np.concatenate([A[j - k:, j] for j in range(len(A))]) if len(A) > 1 else np.zeros(0)
def pack(L, Phi, psi): return np.r_[L.T.ravel(), low(Phi), psi]
def unpack(t, p, m):
    L = t[:p * m].reshape(m, p).T; Phi = np.eye(m); k = p * m
    for j in range(m):
        for i in range(j + 1, m): Phi[i, j] = Phi[j, i] = t[k]; k += 1
    return L, Phi, t[k:]


def point(cx, pmax=8):
    r = cx.rng; p, m = dims(r, pmax); X, S, n = cov_(r, p, m, scale=bool(r.integers(2))); d = np.diag(S).mean(); L, Phi, psi = truth(r, p, m, True); L = L * np.sqrt(d); psi = psi * d; cx.case((p, m, round(np.log10(d)))); return r, p, m, X, S, n, L, Phi, psi, pack(L, Phi, psi), d


@workload("free-parameter derivatives", quick=140, thorough=5000)
def theta(cx):
    r, p, m, X, S, n, L, Phi, psi, t, d = point(cx); f = lambda t: disc(S, imp(*unpack(t, p, m))); sc = np.r_[np.full(p * m, np.sqrt(d)), np.ones(m * (m - 1) // 2), np.full(p, d)] * .2; est = MLEstimator(S, m); F = efa.FactorAnalysis(S=S, n_obs=n, n_factors=m); k = (np.abs(sc[:, None] * sc)); Sg = imp(L, Phi, psi)
    cx.close("pack", est.layout.pack(L, Phi, psi), t); cx.close("unpack", np.concatenate([np.ravel(a) for a in est.layout.unpack(t)]), np.concatenate([np.ravel(a) for a in unpack(t, p, m)])); cx.close("pack (EFA)", F.model_matrices_to_params(L, Phi, np.diag(psi)), t)
    for nm, fv, g, H, ds, sg in (("second generation", est.F(t), est.grad(t), est.hessian(t), est.dsigma(t), est.sigma(t)), ("EFA", F.loglike_params(t), F.gradient_params(t), F.hessian_params(t), None, F.sigma_params(t))):
        cx.closen(f"{nm}: implied covariance", sg, Sg, rtol=1e-10); cx.close(f"{nm}: discrepancy", fv, f(t), rtol=1e-9, atol=1e-9); want, err = __import__("vlib.mon", fromlist=["nderiv"]).nderiv(lambda z: np.array(f(t + z * sc)), np.zeros(len(t)), scale=np.ones(len(t))); cx.ok(f"{nm}: gradient", np.all(np.abs(g * sc - want) <= 1e-6 * np.abs(want).max() + 20 * err + 1e-9), f"{np.abs(g * sc - want).max()} {err.max()}"); cx.deriv(f"{nm}: Hessian", H * k, lambda z: (est.grad(t + z * sc)) * sc, np.zeros(len(t)), rtol=1e-6, atol=1e-8, scale=np.ones(len(t)))
    cx.deriv("second generation: implied covariance derivatives", np.moveaxis(est.dsigma(t), 0, -1) * sc, lambda z: imp(*unpack(t + z * sc, p, m)), np.zeros(len(t)), rtol=1e-7, atol=1e-10 * d, scale=np.ones(len(t))); cx.deriv("EFA: implied covariance derivatives", F.dsigma_params(t) * sc, lambda z: vech(imp(*unpack(t + z * sc, p, m))), np.zeros(len(t)), rtol=1e-7, atol=1e-10 * d, scale=np.ones(len(t))); cx.deriv("EFA: second derivatives of the implied covariance", F.d2sigma_params(t).transpose(0, 1, 2) * k, lambda z: F.dsigma_params(t + z * sc) * sc, np.zeros(len(t)), rtol=1e-7, atol=1e-9 * d, scale=np.ones(len(t)))
    E = lambda v: (lambda A: A + A.T - np.diag(np.diag(A)))(np.array([[0. if j > i else v[[a for a, (q, w) in enumerate([(x, y) for y in range(p) for x in range(y, p)]) if (q, w) == (i, j)][0]] for j in range(p)] for i in range(p)])); v0 = vech(S); cx.deriv("second generation: score wrt sample covariance", est.score_jacobian(t) * sc[:, None], lambda v: MLEstimator(E(v), m).grad(t) * sc, v0, rtol=1e-6, atol=1e-8 / d, scale=d)
    cx.closen("second generation: normal-theory score variance", est.meat(t, n_obs=n), 2 / n * np.einsum("aij,jk,bkl,li->ab", est.dsigma(t), np.linalg.inv(Sg), est.dsigma(t), np.linalg.inv(Sg)), rtol=1e-7); A = r.normal(size=(len(v0), len(v0) + 2)); V = A @ A.T; cx.closen("second generation: empirical score variance", est.meat(t, V_S=V), est.score_jacobian(t) @ V @ est.score_jacobian(t).T, rtol=1e-9); w = est.workspace(t); cx.close("workspace reuse", [w.F(), *w.grad(), *w.hessian().ravel()], [est.F(t), *est.grad(t), *est.hessian(t).ravel()], rtol=1e-9, atol=1e-9 / d)


@workload("profiled uniquenesses", quick=240, thorough=5000)
def prof(cx):
    r, p, m, X, S, n, L, Phi, psi, t, d = point(cx); est = MLEstimator(S, m); F = efa.FactorAnalysis(S=S, n_obs=n, n_factors=m); G = fa1.FactorAnalysis(S=S, n_obs=n, n_factors=m); psi = np.diag(S) * r.uniform(.25, .8, p); u, V = np.linalg.eigh(S / np.sqrt(np.outer(psi, psi))); rr = p - m; want = np.sum(u[:rr] - np.log(u[:rr]) - 1)
    if np.diff(u).min() < 1e-3 * u.max() / p: cx.skip("nearly tied eigenvalues")
    f = lambda s: np.sum((lambda v: v - np.log(v) - 1)(np.linalg.eigvalsh(S / np.sqrt(np.outer(s, s)))[:rr])); one = np.ones(p)
    for nm, a, b, c in (("second generation", est.loglike_psi, est.grad_psi, est.hess_psi), ("EFA", F.loglike, F.gradient, F.hessian), ("first generation", G.loglike_canonical, G.gradient_canonical, G.hessian_canonical)): cx.close(f"{nm}: profiled discrepancy", a(psi), want, rtol=1e-9, atol=1e-10); cx.deriv(f"{nm}: gradient", b(psi) * psi, lambda z: np.array(f(psi * (1 + z))), 0 * psi, rtol=1e-6, atol=1e-8, scale=one * .3); cx.deriv(f"{nm}: Hessian", c(psi) * np.outer(psi, psi), lambda z: est.grad_psi(psi * (1 + z)) * psi, 0 * psi, rtol=1e-6, atol=1e-7, scale=one * .1)
    rho = np.log(psi)
    for nm, a, b, c in (("second generation", est.loglike_exp, est.grad_exp, est.hess_exp), ("EFA", F.loglike_exp, F.gradient_exp, F.hessian_exp)): cx.close(f"{nm}: log-scale value", a(rho), want, rtol=1e-9, atol=1e-10); cx.deriv(f"{nm}: log-scale gradient", b(rho), lambda z: np.array(f(np.exp(z))), rho, rtol=1e-6, atol=1e-8, scale=one * .3); cx.deriv(f"{nm}: log-scale Hessian", c(rho), est.grad_exp, rho, rtol=1e-6, atol=1e-7, scale=one * .1)
    if u[rr] > 1.02:
        for nm, A in (("second generation", est.loadings_from_psi(psi)), ("EFA", F.loadings_from_psi(psi)), ("first generation", G.loadings_from_psi(psi))): cx.close(f"{nm}: loadings attain the profiled discrepancy", disc(S, A @ A.T + np.diag(psi)) - np.linalg.slogdet(S)[1] - p, want, rtol=1e-7, atol=1e-8); q = A.T @ (A / psi[:, None]); cx.close(f"{nm}: canonical loadings", q - np.diag(np.diag(q)), 0., atol=1e-7 * np.abs(q).max())


@workload("first-generation derivatives", quick=160, thorough=3000)
def gen1(cx):
    r, p, m, X, S, n, L, Phi, psi, t, d = point(cx, 7); G = fa1.FactorAnalysis(S=S, n_obs=n, n_factors=m); th = np.r_[L.T.ravel(), np.log(psi)]; k = p * m; sc = np.r_[np.full(k, np.sqrt(d)), np.ones(p)] * .2; im = lambda z: (lambda A: A @ A.T)(z[:k].reshape(m, p).T) + np.diag(np.exp(z[k:])); f = lambda z: disc(S, im(z)); H = G.hessian(th); Z = np.zeros(len(th)); o = np.ones(len(th))
    cx.closen("implied covariance", G.implied_cov(th), im(th), rtol=1e-10); cx.close("discrepancy", G.loglike(th), f(th), rtol=1e-9, atol=1e-9); cx.deriv("gradient", G.gradient(th) * sc, lambda z: np.array(f(th + z * sc)), Z, rtol=1e-6, atol=1e-8, scale=o); cx.deriv("Hessian", H * np.outer(sc, sc), lambda z: G.gradient(th + z * sc) * sc, Z, rtol=1e-6, atol=1e-8, scale=o); cx.deriv("implied covariance derivatives", G.dsigma(th) * sc, lambda z: vech(im(th + z * sc)), Z, rtol=1e-7, atol=1e-10 * d, scale=o); cx.closen("repeat evaluation", G.hessian(th), H, rtol=1e-12)
    G = fa1.FactorAnalysis(S=S, n_obs=n, n_factors=m); G.rotation_type = "oblique"; G._make_augmented_params(L, Phi, np.diag(psi)); cx.close("augmented parameters", G.params, t); Ha = G.hessian_augmented(t); s2 = np.r_[np.full(k, np.sqrt(d)), np.ones(m * (m - 1) // 2), np.full(p, d)] * .2; Z = np.zeros(len(t)); o = np.ones(len(t)); g = lambda z: disc(S, imp(*unpack(z, p, m))); cx.close("augmented discrepancy", G.loglike_augmented(t), g(t), rtol=1e-9, atol=1e-9); cx.deriv("augmented gradient", G.gradient_augmented(t) * s2, lambda z: np.array(g(t + z * s2)), Z, rtol=1e-6, atol=1e-8, scale=o); cx.deriv("augmented Hessian", Ha * np.outer(s2, s2), lambda z: G.gradient_augmented(t + z * s2) * s2, Z, rtol=1e-6, atol=1e-8, scale=o); cx.deriv("augmented covariance derivatives", G.dsigma_augmented(t) * s2, lambda z: vech(imp(*unpack(t + z * s2, p, m))), Z, rtol=1e-7, atol=1e-10 * d, scale=o); G.Im, G.E = np.eye(m), np.eye(p); G2 = fa1.FactorAnalysis(S=S, n_obs=n, n_factors=m); G2.rotation_type = "oblique"; G2._make_augmented_params(L, Phi, np.diag(psi)); cx.deriv("second derivatives of the implied covariance", G2.d2sigma_augmented(t) * np.outer(s2, s2), lambda z: G2.dsigma_augmented(t + z * s2) * s2, Z, rtol=1e-7, atol=1e-9 * d, scale=o)


class Improper(Exception): pass


def own_fit(S, m, psi0):
    """Own multi-start minimisation of the profiled discrepancy; refuses improper, flat or multimodal problems."""
    p = len(S); d = np.diag(S); lo, hi = np.log(d * 1e-3), np.log(d)

    def fg(rho): w, V = np.linalg.eigh(S / np.exp((rho[:, None] + rho) / 2)); w, V = w[:p - m], V[:, :p - m]; return np.sum(w - np.log(w) - 1), -(V ** 2) @ (w - 1)
    R = []
    for x0 in (psi0, psi0 * .5, d * .5, d * .15, d * np.linspace(.2, .8, p), d * np.linspace(.8, .2, p)): o = so.minimize(fg, np.clip(np.log(x0), lo, hi), jac=True, method="L-BFGS-B", bounds=list(zip(lo, hi)), options=dict(maxiter=3000, maxfun=6000, ftol=1e-15, gtol=1e-9)); R.append((o.fun, o.x))
    R.sort(key=lambda t: t[0]); f0, x0 = R[0]
    if any((np.exp(x) < .04 * d).any() for _, x in R) or R[-1][0] > f0 + 1e-6 * (1 + f0): raise Improper("improper (Heywood) or multimodal problem")
    H = np.array([(fg(x0 + 1e-4 * e)[1] - fg(x0 - 1e-4 * e)[1]) / 2e-4 for e in np.eye(p)]); w = np.linalg.eigvalsh((H + H.T) / 2)
    if w[0] < 2e-3 * w[-1]: raise Improper("weakly determined uniquenesses")
    return f0, np.exp(x0)


def fitted(cx, S, m):
    try: return own_fit(S, m, 1 / np.diag(np.linalg.inv(S)))
    except Improper as e: cx.skip(str(e))


def refit(F):
    """Fit from another starting point of the same problem; it may run into the boundary (uniqueness zero), which is another stationary point."""
    try: F.fit()
    except np.linalg.LinAlgError: F.Sigma = np.full((1, 1), np.nan)


@workload("fits", quick=90, thorough=1800, timeout=90)
def fits(cx):
    r = cx.rng; p, m = dims(r, 9); X, S, n = cov_(r, p, m, scale=bool(r.integers(2)), lo=300); rot = [None, ("varimax", "ortho"), ("quartimax", "oblique"), ("quartimax", "ortho")][int(r.integers(4))] if m > 1 else None; byx = bool(r.integers(2)); df = pd.DataFrame(X, columns=[f"v{i}" for i in range(p)]); cx.case((p, m, rot, byx)); fo, po = fitted(cx, S, m)
    kw = dict(rotation_method=rot[0], rotation_type=rot[1]) if rot else {}; D0 = df.copy(); F = efa.FactorAnalysis(X=df, n_factors=m, **kw) if byx else efa.FactorAnalysis(S=S, n_obs=n, n_factors=m, **kw); refit(F); cx.skip("ran into the boundary") if np.isnan(np.asarray(F.Sigma)).any() or (np.diag(np.asarray(F.Psi)) < .03 * np.diag(np.asarray(F.S))).any() else None; cx.ok("data untouched", df.equals(D0), "modified"); SF = np.asarray(F.S); cx.closen("sample covariance", SF, S * (n / (n - 1) if byx and not np.allclose(SF, S, rtol=1e-9) else 1), rtol=1e-9); fo, po = fitted(cx, SF, m); ld = np.linalg.slogdet(SF)[1] + p; L, Phi, psi = np.asarray(F.L), np.asarray(F.Phi), np.diag(np.asarray(F.Psi)); Sg = imp(L, Phi, psi); cx.skip("rotation collapsed") if not np.isfinite(Sg).all() or np.abs(L).max() > 1e4 * np.sqrt(np.diag(SF).max()) or np.linalg.cond(Phi) > 1e6 or np.linalg.cond(Sg) > 1e13 else None; d0 = disc(SF, Sg) - ld
    cx.ok("attains the minimum discrepancy", d0 <= fo + 1e-6 * (1 + abs(fo)), f"{d0} vs {fo}"); close = abs(d0 - fo) < 1e-8 + 1e-6 * fo; cx.closen("reported implied covariance", np.asarray(F.Sigma), Sg, rtol=1e-9); Si = np.linalg.inv(Sg); W = Si @ (Sg - SF) @ Si; dd = np.sqrt(np.diag(SF)); cx.close("stationary in the loadings", (W @ L) * dd[:, None], 0., atol=2e-4); cx.close("stationary in the uniquenesses", np.diag(W) * psi, 0., atol=2e-4); cx.close("uniquenesses absorb the variance residual", np.diag(Sg), np.diag(SF), rtol=1e-4); cx.close("communalities unaffected by rotation", np.diag(L @ Phi @ L.T), np.diag(F.A @ F.A.T), rtol=1e-6, atol=1e-9)
    same = lambda f, C: f is not None and hasattr(f, 'Sigma') and np.isfinite(np.asarray(f.Sigma)).all() and np.linalg.cond(f.Sigma) < 1e12 and abs(disc(C, np.asarray(f.Sigma)) - np.linalg.slogdet(C)[1] - p - d0) < 1e-5 * (1 + d0)  # noqa: E731
    est = MLEstimator(SF, m); o = est.fit_psi(); cx.close("generations agree on the minimum", est.loglike_psi(o["psi"]), d0, rtol=1e-4, atol=1e-6)
    P = r.permutation(p); F2 = efa.FactorAnalysis(S=SF[np.ix_(P, P)], n_obs=n, n_factors=m); refit(F2); cx.close("reordering variables permutes the solution", np.diag(np.asarray(F2.Psi)), psi[P], rtol=5e-3, atol=2e-3 * psi.mean()) if close and same(F2, SF[np.ix_(P, P)]) else cx.note("another stationary point"); s = r.uniform(.5, 2, p); F3 = efa.FactorAnalysis(S=SF * np.outer(s, s), n_obs=n, n_factors=m); refit(F3); cx.close("rescaling variables rescales the solution", np.diag(np.asarray(F3.Psi)), psi * s * s, rtol=5e-3, atol=2e-3 * (psi * s * s).mean()) if close and same(F3, SF * np.outer(s, s)) else cx.note("another stationary point")
    dfree = ((p - m) ** 2 - (p + m)) // 2; chi = n * d0; f0 = -np.linalg.slogdet(SF / np.outer(dd, dd))[1]; c0, df0 = n * f0, p * (p - 1) // 2; T, I, M = F.chi2_table, F.incrimental_fit_indices["Value"], F.misc_fit_indices["Value"]; cx.close("chi-square table", T.values.astype(float), [[chi, dfree, st.chi2.sf(chi, dfree)], [c0, df0, st.chi2.sf(c0, df0)]], rtol=1e-5, atol=1e-6 * n)
    cx.close("incremental indices", I[["TLI", "NFI", "IFI", "RNI", "CFI"]].values, [(c0 / df0 - chi / dfree) / (c0 / df0 - 1), (c0 - chi) / c0, (c0 - chi) / (c0 - dfree), 1 - (chi - dfree) / (c0 - df0), 1 - max(chi - dfree, 0) / max(c0 - df0, chi - dfree, 1e-12)], rtol=1e-4, atol=1e-5); k = p * m + p - m * (m - 1) // 2; A = np.linalg.solve(Sg, SF); gfi = 1 - np.sum((A - np.eye(p)) * (A - np.eye(p)).T) / np.sum(A * A.T); R = (Sg - SF) / np.outer(dd, dd); sr = np.sqrt(np.sum(R[np.tril_indices(p)] ** 2) * 2 / (p * (p + 1))); cx.close("absolute indices", M[["GFI", "AGFI", "RMSEA", "SRMR"]].values, [gfi, 1 - (p * (p + 1) / (2 * dfree)) * (1 - gfi), np.sqrt(max(chi - dfree, 0) / (dfree * (n - 1))), sr], rtol=1e-3, atol=1e-4); cx.close("information criteria", M[["loglikelihood", "AIC", "BIC"]].values, [-chi / 2, 2 * k + chi, k * np.log(n) + chi], rtol=1e-5, atol=1e-5 * n)
    Z0 = X - X.mean(0)
    if byx:
        sq = lambda A: (lambda w, v: (v * np.sqrt(w)) @ v.T)(*np.linalg.eigh(A))
        for meth in ("thurstone", "bartlett", "mcdonald", "tenBerge"):
            Z, B = F.estimate_factors(X=X, method=meth); B = np.asarray(B); cx.close("scores are the weighted centred data", np.asarray(Z), Z0 @ B, rtol=1e-7, atol=1e-8); Pi = L / psi[:, None]
            if meth == "thurstone": cx.closen("regression score weights", B, np.linalg.solve(SF, L @ Phi), rtol=1e-6)
            elif meth == "bartlett": cx.closen("Bartlett score weights", B, Pi @ np.linalg.inv(L.T @ Pi), rtol=1e-6); cx.close("Bartlett scores are conditionally unbiased", B.T @ L, np.eye(m), atol=1e-7)
            else:
                cx.close("correlation-preserving scores", B.T @ SF @ B, Phi, atol=1e-6)
                if meth == "tenBerge": h = np.linalg.solve(sq(SF), L @ sq(Phi)); u, s_, v = np.linalg.svd(h, full_matrices=False); cx.closen("ten Berge score weights", B, np.linalg.solve(sq(SF), u @ v @ sq(Phi)), rtol=1e-5)


@workload("first-generation fits", quick=48, thorough=900, timeout=120)
def fit1(cx):
    r = cx.rng; p, m = dims(r, 8); X, S, n = cov_(r, p, m, scale=bool(r.integers(2)), lo=300); rot = [None, ("varimax", "ortho"), ("quartimax", "oblique")][int(r.integers(3))] if m > 1 else None; kw = dict(rotation_method=rot[0], rotation_type=rot[1]) if rot else {}; cx.case((p, m, rot)); Z = (X - X.mean(0)) / X.std(0); df = pd.DataFrame(Z, columns=[f"v{i}" for i in range(p)]); F = fa1.FactorAnalysis(X=df, n_factors=m, **kw); SF = np.asarray(F.S); fo, po = fitted(cx, SF, m)
    refit(F); cx.skip("ran into the boundary") if np.isnan(np.asarray(F.Sigma)).any() else None; L, Phi, Psi = np.asarray(F.L), np.asarray(F.Phi), np.asarray(F.Psi); Sg = L @ Phi @ L.T + Psi; d0 = disc(SF, Sg) - np.linalg.slogdet(SF)[1] - p; cx.close("discrepancy is a minimum", d0, fo, rtol=1e-3, atol=1e-4); cx.closen("reported implied covariance", np.asarray(F.Sigma), Sg, rtol=1e-9); Si = np.linalg.inv(Sg); W = Si @ (Sg - SF) @ Si; cx.close("stationary in the loadings", W @ L, 0., atol=1e-3); cx.close("stationary in the uniquenesses", np.diag(W) * np.diag(Psi), 0., atol=1e-3)
    dfree = ((p - m) ** 2 - (p + m)) // 2; s = F.sumstats; chi = (n - 1) * d0; k = p * m + p - m * (m - 1) // 2; cx.close("chi-square", [float(s["chi2"]), float(s["chi2_pvalue"])], [chi, st.chi2.sf(chi, dfree)], rtol=1e-4, atol=1e-6); A = np.linalg.solve(Sg, SF); g = 1 - np.sum((A - np.eye(p)) * (A - np.eye(p)).T) / np.sum(A * A.T); ll = -(n - 1) * disc(SF, Sg) / 2; cx.close("fit indices", [s["GFI"], s["AGFI"], s["RMSEA"], s["std_chi2"], s["loglikelihood"], s["AIC"], s["BIC"]], [g, 1 - p * (p + 1) / (2 * dfree) * (1 - g), np.sqrt(max(chi - dfree, 0) / (dfree * (n - 1))), (chi - dfree) / np.sqrt(2 * dfree), ll, 2 * k - 2 * ll, k * np.log(n) - 2 * ll], rtol=1e-4, atol=1e-5)
    B = np.asarray(F.factor_coefs); R = np.corrcoef(Z.T); cx.close("ten Berge scores preserve factor correlations", B.T @ R @ B, Phi, atol=1e-5); cx.close("scores", np.asarray(F.factors), (Z - Z.mean(0)) @ B, rtol=1e-7, atol=1e-9)


@workload("measures", quick=200, thorough=4000)
def meas(cx):
    r = cx.rng; p = int(r.integers(2, 8)); A = r.normal(size=(p, p + 2)); S = A @ A.T; B = A + r.normal(size=A.shape) * .3; Sg = B @ B.T; n = int(r.integers(50, 500)); df = int(r.integers(1, 20)); cx.case((p,)); M = np.linalg.solve(Sg, S); E = M - np.eye(p); g = 1 - np.trace(E @ E) / np.trace(M @ M); cx.close("GFI", fm.gfi(Sg, S), g, rtol=1e-7, atol=1e-9); cx.close("AGFI", fm.agfi(Sg, S, df), 1 - p * (p + 1) / (2 * df) * (1 - g), rtol=1e-7, atol=1e-8); chi, pv = fm.lr_test(Sg, S, df, n); w = n * (disc(S, Sg) - np.linalg.slogdet(S)[1] - p); cx.close("likelihood-ratio statistic", chi, max(w, 1e-12), rtol=1e-6, atol=1e-8); cx.close("likelihood-ratio p-value", pv, st.chi2.sf(w, df), rtol=1e-5, atol=1e-12)
    d = np.sqrt(np.diag(S)); R = (Sg - S) / np.outer(d, d); cx.close("SRMR", fm.srmr(Sg, S, df), np.sqrt(2 * np.sum(R[np.tril_indices(p)] ** 2) / (p * (p + 1))), rtol=1e-8); C = S / np.outer(d, d); Q = np.linalg.inv(C); q = np.sqrt(np.diag(Q)); Q = Q / np.outer(q, q); i = np.tril_indices(p, -1); cx.close("sampling adequacy", fm.measure_of_sample_adequacy(S), np.sum(C[i] ** 2) / (np.sum(C[i] ** 2) + np.sum(Q[i] ** 2)), rtol=1e-7)
