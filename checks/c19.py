"""C19: standard errors of factor solutions against a null-space computation of the constrained information."""
import numpy as np, pandas as pd, scipy.linalg as sl, scipy.stats as st
from vlib.mon import workload
from checks.c17 import cov_, dims, disc, imp, pack, unpack, truth, fitted, refit
from checks.c18 import low, offd, kappa, METH
from pystatsm.pyfa import efa, factor_analysis as fa1
from pystatsm.pyfa2.likelihood import MLEstimator
from pystatsm.pyfa2 import criterion as cr, rotation as r2, identification as idn, inference as inf, alignment as al


def grad(S, t, p, m):
    L, Phi, psi = unpack(t, p, m); Sg = imp(L, Phi, psi); Si = np.linalg.inv(Sg); W = Si @ (Sg - S) @ Si; return np.r_[(2 * W @ L @ Phi).T.ravel(), low(2 * L.T @ W @ L), np.diag(W)]


def njac(f, t, s, h=1e-4): return np.array([(8 * (f(t + h * e) - f(t - h * e)) - f(t + 2 * h * e) + f(t - 2 * h * e)) / (12 * h) for e in np.diag(s)]).T / s


def dQ(L, nm):
    p, m = L.shape; k = kappa(nm, p, m); B = L ** 2; return L * ((1 - k) * (B.sum(1)[:, None] - B) + k * (B.sum(0) - B))


def cons(kind, nm, p, m):
    def c(t):
        L, Phi, psi = unpack(t, p, m)
        if kind == "canonical": return low(L.T @ (L / psi[:, None]))
        M = L.T @ dQ(L, nm); return low(M - M.T) if kind == "ortho" else offd(M @ np.linalg.inv(Phi))
    return c


def own_cov(S, t, p, m, kind, nm, n):
    """Observed-information covariance of the constrained estimate: Z (Z'HZ)^-1 Z' 2/n on the null space of the constraints."""
    sd = np.sqrt(np.diag(S)); k = p * m; ns = m * (m - 1) // 2; s = np.r_[np.tile(sd, m), np.ones(ns), sd ** 2]; free = np.ones(len(t), bool); free[k:k + ns] = kind == "oblique"; H = njac(lambda z: grad(S, z, p, m), t, s); H = ((H + H.T) / 2 * np.outer(s, s))[np.ix_(free, free)]; C = np.atleast_2d(njac(cons(kind, nm, p, m), t, s))
    if m == 1: Z = np.eye(free.sum())
    else: C = (C * s)[:, free]; C = C / np.abs(C).max(1, keepdims=True); Z = sl.null_space(C)
    A = Z.T @ H @ Z
    if np.linalg.eigvalsh(A)[0] <= 1e-5 * np.abs(np.linalg.eigvalsh(A)).max() or Z.shape[1] != free.sum() - (0 if m == 1 else len(C)): return None, None, None
    V = Z @ np.linalg.solve(A, Z.T) * 2 / n; f = s[free]; return V * np.outer(f, f), free, s


def kind_of(rot): return "canonical" if rot is None else rot[1]


def draw(cx, pmax=8, lo=300):
    r = cx.rng; p, m = dims(r, pmax) if r.random() < .85 else (10, 4); X, S, n = cov_(r, p, m, scale=bool(r.integers(2)), lo=lo); rot = None if m == 1 else [None, (str(r.choice(METH)), "ortho"), (str(r.choice(METH)), "oblique")][int(r.integers(3))]; cx.case((p, m, rot)); return r, p, m, X, S, n, rot


def rotated_ok(cx, L, Phi, kind, nm):
    if kind == "canonical" or L.shape[1] == 1: return
    if np.linalg.cond(Phi) > 300 or np.abs(L).max() > 1e3 * np.sqrt(np.diag(L @ Phi @ L.T).max()): cx.skip("rotation collapsed")
    M = L.T @ dQ(L, nm); c = low(M - M.T) if kind == "ortho" else offd(M @ np.linalg.inv(Phi))
    if np.abs(c).max() > 1e-5 * np.abs(M).max(): cx.skip("rotation not converged")


def fitted_se(cx, gen):
    r, p, m, X, S, n, rot = draw(cx); fitted(cx, S, m); kw = dict(rotation_method=rot[0], rotation_type=rot[1]) if rot else {}; df = pd.DataFrame((X - X.mean(0)) / X.std(0) if gen == 1 else X, columns=[f"v{i}" for i in range(p)]); F = fa1.FactorAnalysis(X=df, n_factors=m, **kw) if gen == 1 else (efa.FactorAnalysis(X=df, n_factors=m, **kw) if r.integers(2) else efa.FactorAnalysis(S=S, n_obs=n, n_factors=m, **kw)); refit(F)
    if np.isnan(np.asarray(F.Sigma)).any() or (np.diag(np.asarray(F.Psi)) < .03 * np.diag(np.asarray(F.S))).any(): cx.skip("ran into the boundary")
    SF = np.asarray(F.S); L, Phi, psi = np.asarray(F.L), np.asarray(F.Phi), np.diag(np.asarray(F.Psi)); kind = kind_of(rot); nm = rot[0] if rot else None; rotated_ok(cx, L, Phi, kind, nm); t = pack(L, Phi, psi); V, free, s = own_cov(SF, t, p, m, kind, nm, n)
    if V is None or np.abs(grad(SF, t, p, m) * s).max() > 1e-3: cx.skip("weakly determined")
    se = np.sqrt(np.diag(V)); k = p * m; cx.close("loading standard errors", F.L_se, se[:k].reshape(m, p).T, rtol=2e-3, atol=2e-4 * np.abs(se[:k]).max()); cx.close("uniqueness standard errors", F.psi_se, se[-p:], rtol=2e-3, atol=1e-5 * np.abs(se[-p:]).max())
    if kind == "oblique": P = np.zeros((m, m)); P[np.triu_indices(m, 1)[::-1]] = 0; o = np.zeros((m, m)); z = unpack(np.r_[np.zeros(k), se[k:k + m * (m - 1) // 2], np.zeros(p)], p, m)[1]; i = np.tril_indices(m, -1); cx.close("factor-correlation standard errors", np.asarray(F.Phi_se)[i], z[i], rtol=2e-3, atol=1e-3 * np.abs(z[i]).max())
    cx.close("all standard errors in order", F.se_params, se, rtol=2e-3, atol=2e-4 * np.abs(se[:k]).max() if kind != "oblique" else 1e-3 * se.max()); cx.close("constraints hold along the reported covariance", *(_along(F, V, n) if gen == 2 else (0., 0.)), rtol=2e-3, atol=1e-3 * np.abs(V).max())
    R = F.res; lab = {f"L[{i}][{j}]": (L[i, j], se[j * p + i]) for i in range(p) for j in range(m)}; lab.update({f"Psi[{i}]": (psi[i], se[-p + i]) for i in range(p)})
    if kind == "oblique": ps = unpack(np.r_[np.zeros(k), se[k:k + m * (m - 1) // 2], np.zeros(p)], p, m)[1]; lab.update({f"Phi[{i}][{j}]": (Phi[i, j], ps[i, j]) for i in range(m) for j in range(i)})
    cx.ok("table rows", set(R.index) == set(lab) and len(R) == len(lab), lambda: str(set(R.index) ^ set(lab))[:100]); w = np.array([lab[x] for x in R.index]); cx.close("table: estimates under their labels", R["param"], w[:, 0], rtol=1e-6, atol=1e-8 * np.abs(w).max()); cx.close("table: standard errors under their labels", R["SE"], w[:, 1], rtol=2e-3, atol=1e-3 * np.abs(w[:, 1]).max()); z = R["param"].values / R["SE"].values; cx.close("table: z and p", np.c_[R["z"], R["p"]], np.c_[z, 2 * st.norm.sf(np.abs(z))], rtol=1e-9, atol=1e-300)
    if gen == 2:
        F2 = efa.FactorAnalysis(S=SF, n_obs=4 * n, n_factors=m, **kw); refit(F2)
        if np.isfinite(np.asarray(F2.Sigma)).all() and np.allclose(F2.L, L, rtol=1e-5, atol=1e-6 * np.abs(L).max()): cx.close("quadrupled sample halves the standard errors", F2.se_params * 2, F.se_params, rtol=1e-3, atol=1e-4 * F.se_params.max())
        Ha, C = F.hessian_aug(F.params), F.constraint_derivs(F.params); cx.close("augmented information is symmetric", Ha, Ha.T, rtol=1e-8, atol=1e-8 * np.abs(Ha).max()); Cn = njac(cons(kind, nm, p, m), t, s) if m > 1 else None
        if m > 1: row = lambda A: sl.orth((A[:, free] * s[free]).T); a, b = row(np.asarray(C)), row(Cn); cx.close("constraint derivatives span the right directions", a @ a.T, b @ b.T, atol=1e-3)
    return F


def _along(F, V, n): k = len(V); return np.asarray(F.Acov)[:k, :k] * 2 / n, V


@workload("EFA standard errors", quick=100, thorough=2000, timeout=90)
def se2(cx): fitted_se(cx, 2)


@workload("first-generation standard errors", quick=60, thorough=1000, timeout=120)
def se1(cx): fitted_se(cx, 1)


@workload("second-generation covariance", quick=120, thorough=2400, timeout=60)
def sep(cx):
    r, p, m, X, S, n, rot = draw(cx); fitted(cx, S, m); E = MLEstimator(S, m); o = E.fit_psi(); psi = np.asarray(o["psi"])
    if (psi < .03 * np.diag(S)).any(): cx.skip("ran into the boundary")
    A = E.loadings_from_psi(psi); kind = kind_of(rot); nm = rot[0] if rot else None; sc = np.abs(A).max()
    if kind == "canonical": I = idn.CanonicalIdentification(p, m); f = I.fit(A, psi)
    else: R = r2.ObliqueRotation(m) if kind == "oblique" else r2.OrthoRotation(m); I = idn.RotationIdentification(R, cr.GCFCriterion(nm, p, m), tol=1e-9 * sc ** 4, n_iters=5000); f = I.fit(A)
    L, Phi = f["L"], f["Phi"]; rotated_ok(cx, L, Phi, kind, nm); t = pack(L, Phi, psi); V, free, s = own_cov(S, t, p, m, kind, nm, n)
    if V is None: cx.skip("weakly determined")
    H, D, fm = E.hessian(t), I.d_constraint(t), I.free_mask(); cx.ok("free parameters", np.array_equal(fm, free), "mask"); W = inf.param_cov(H, D, fm, n); sd = np.sqrt(np.diag(V)); nrm = np.outer(sd + 1e-3 * s[free] / np.sqrt(n), sd + 1e-3 * s[free] / np.sqrt(n)); cx.close("information covariance", W / nrm, V / nrm, atol=2e-3); cx.close("standard errors", inf.se_from_cov(W), sd, rtol=2e-3, atol=1e-4 * s[free].min() / np.sqrt(n)); Cn = D[:, fm]; u = s[free]; cx.close("vanishes along the constraints", (Cn @ W) / (np.abs(Cn * u).max(initial=1e-300) * u) * n, 0., atol=1e-5); cx.close("scales inversely with sample size", inf.param_cov(H, D, fm, 9 * n) * 9, W, rtol=1e-9, atol=1e-12 * np.abs(W).max())
    Ha = inf.augmented_hessian(H, D); q = len(H); cx.close("augmented information", Ha, np.block([[H, D.T], [D, np.zeros((len(D), len(D)))]])); B = inf.bread(H, D, fm); cx.closen("bread", B * 2 / n, W, rtol=1e-12)
    P = r.permutation(m); sg = r.choice([-1., 1.], m)
    if kind != "canonical": t2 = pack(L[:, P] * sg, np.outer(sg, sg) * Phi[np.ix_(P, P)], psi); W2 = inf.param_cov(E.hessian(t2), I.d_constraint(t2), fm, n); l1 = np.sqrt(np.diag(W)[:p * m]).reshape(m, p).T; l2 = np.sqrt(np.diag(W2)[:p * m]).reshape(m, p).T; cx.close("independent of factor order and sign", l2, al.apply_se(l1, P), rtol=1e-4, atol=1e-5 * l1.max()); cx.close("uniquenesses' errors unaffected", np.diag(W2)[-p:], np.diag(W)[-p:], rtol=1e-5)
    # sandwich: J V_S J' in between; normal theory at the model equals the information
    Xc = X - X.mean(0); iv = [(i, j) for j in range(p) for i in range(j, p)]; G = np.array([Xc[:, i] * Xc[:, j] for i, j in iv]).T; G = G - G.mean(0); VS = G.T @ G / (n * (n - 1)); cx.closen("covariance of sample covariances", inf.empirical_cov_vech_S(X), VS, rtol=1e-9); K = E.score_jacobian(t); Js = E.meat(t, V_S=VS); want = (B @ K[fm] @ VS @ K[fm].T @ B.T); cx.close("sandwich covariance", inf.sandwich_cov(H, D, Js, fm) / nrm, want / nrm, rtol=1e-5, atol=1e-6)
    E0 = MLEstimator(imp(L, Phi, psi), m); H0 = E0.hessian(t); a = inf.sandwich_cov(H0, D, E0.meat(t, n_obs=n), fm); b = inf.param_cov(H0, D, fm, n); cx.close("sandwich equals information when the model holds exactly", a / nrm, b / nrm, rtol=1e-5, atol=1e-5)


@workload("delta method", quick=40, thorough=800, timeout=90)
def delta(cx):
    r, p, m, X, S, n, rot = draw(cx, 7); fitted(cx, S, m); kind = kind_of(rot); nm = rot[0] if rot else None

    def est(C, T0=None, ps=None):
        E = MLEstimator(C, m); psi = np.asarray(E.fit_psi()["psi"]) if ps is None else ps
        for _ in range(30):
            d = np.linalg.solve(E.hess_psi(psi), E.grad_psi(psi)); psi = psi - np.clip(d, -.2 * psi, .2 * psi)
            if np.abs(d / psi).max() < 1e-12: break
        A = E.loadings_from_psi(psi)
        if kind == "canonical": I = idn.CanonicalIdentification(p, m); f = I.fit(A, psi)
        else: R = r2.ObliqueRotation(m) if kind == "oblique" else r2.OrthoRotation(m); I = idn.RotationIdentification(R, cr.GCFCriterion(nm, p, m), tol=1e-11 * np.abs(A).max() ** 4, n_iters=6000); f = I.fit(A, T0)
        return E, I, f["L"], f["Phi"], psi, f["T"]
    E, I, L, Phi, psi, T = est(S)
    if (psi < .03 * np.diag(S)).any(): cx.skip("ran into the boundary")
    rotated_ok(cx, L, Phi, kind, nm); t = pack(L, Phi, psi); V, free, s = own_cov(S, t, p, m, kind, nm, n)
    if V is None: cx.skip("weakly determined")
    sdv = np.sqrt(np.diag(S)); D = r.normal(size=(p, p)); D = (D + D.T) * np.outer(sdv, sdv); h = 2e-4; Z = []
    for sg in (1, -1):
        _, _, L1, P1, ps1, _ = est(S + sg * h * D, None, psi); o = al.align_model(L1, L, Phi=P1); Z.append(pack(o["L"], o["Phi"], ps1))
        if np.abs((Z[-1] - t) / s).max() > .1: cx.skip("another local rotation")
    num = ((Z[0] - Z[1]) / (2 * h))[free]; B = inf.bread(E.hessian(t), I.d_constraint(t), I.free_mask()); an = -B @ (E.score_jacobian(t)[free] @ np.array([D[i, j] for j in range(p) for i in range(j, p)])); cx.close("sensitivity of the estimates to the data", an / s[free], num / s[free], rtol=2e-2, atol=5e-3 * np.abs(num / s[free]).max())


@workload("Monte Carlo", quick=2, thorough=24, timeout=300, shards=2)
def mc(cx):
    r = cx.rng; p, m, n = 7, 2, 500; L = np.zeros((p, m)); L[:4, 0] = r.uniform(.6, .85, 4); L[4:, 1] = r.uniform(.6, .85, 3); Phi = np.array([[1, .3], [.3, 1]]); psi = 1 - np.diag(L @ Phi @ L.T); S0 = imp(L, Phi, psi); cx.case((int(cx.it),)); R = r2.ObliqueRotation(m); Es, Vs = [], []
    for _ in range(250):
        C = np.cov(r.multivariate_normal(np.zeros(p), S0, size=n).T, bias=True); E = MLEstimator(C, m); ps = np.asarray(E.fit_psi()["psi"]); I = idn.RotationIdentification(R, cr.GCFCriterion("quartimax", p, m)); f = I.fit(E.loadings_from_psi(ps)); o = al.align_model(f["L"], L, Phi=f["Phi"]); t = pack(o["L"], o["Phi"], ps); Es.append(t); Vs.append(np.diag(inf.param_cov(E.hessian(t), I.d_constraint(t), I.free_mask(), n)))
    ratio = np.std(Es, axis=0) / np.sqrt(np.median(Vs, axis=0)); cx.ok("standard errors match the sampling variation", np.all((ratio > .75) & (ratio < 1.33)), lambda: np.array2string(ratio, precision=2))
