"""C08: what a fitted linear mixed model reports, against the dense marginal model."""
import contextlib, io
import numpy as np, scipy.stats as st
from vlib.mon import workload
from vlib import lmmo
from pystatsm.pylmm.lmm import LMM
from pystatsm.pylmm.re_mod import LMM2


def usable(cx, D, th, reml):
    """Interior, identified solution (otherwise the statement does not apply)."""
    for S in D.G(th):
        if np.linalg.eigvalsh(S).min() < .02: cx.skip("solution at the variance boundary")
    if th[-1] < .02: cx.skip("solution at the variance boundary")
    H = D.hessian(th, reml)
    if np.linalg.eigvalsh(H).min() <= 0 or np.linalg.cond(H) > 1e8: cx.skip("information not positive definite")
    return H


def satt(D, th, H, L):
    """F statistic and Satterthwaite degrees of freedom of a single contrast."""
    V, Vi, XV, C, P = D.parts(th); b = C @ XV @ D.y; u = L @ C @ L; g = np.array([L @ C @ XV @ dV @ XV.T @ C @ L for dV in D.dV])
    nu = 2 * u ** 2 / (g @ (2 * np.linalg.inv(H)) @ g); return (L @ b) ** 2 / u, nu


def fit(cx, m, D, reml, **kw):
    try: m.fit(reml=reml, **kw); return m
    except np.linalg.LinAlgError as e: err = e
    except Exception as e:
        if "NotPositiveDefinite" not in type(e).__name__: raise
        err = e
    # a factorisation may only break down when the optimum is on the boundary of the parameter space
    from scipy.optimize import minimize
    def th_of(v):
        out, o = [], 0
        for q in D.q:
            L = np.zeros((q, q)); k = q * (q + 1) // 2; L[np.tril_indices(q)] = v[o:o + k]; S = L @ L.T; out += [S[a, b] for b in range(q) for a in range(b, q)]; o += k
        return np.r_[out, np.exp(v[-1])]
    v0 = np.concatenate([np.eye(q)[np.tril_indices(q)] for q in D.q] + [[0.0]]); o = minimize(lambda v: D.loglike(th_of(v), reml), v0, method="BFGS", options=dict(maxiter=60)); t = th_of(o.x)
    if min(np.linalg.eigvalsh(S).min() for S in D.G(t)) < .05: cx.skip("solution at the variance boundary")
    raise err


def common(cx, m, D, reml, th0, gtol=.02):
    th = np.asarray(m.theta, float); H = usable(cx, D, th, reml); Vt = 2 * np.linalg.inv(H); se = np.sqrt(np.diag(Vt)); g = D.gradient(th, reml)
    cx.ok("stationary", np.all(np.abs(np.linalg.solve(H, g)) < gtol * se), lambda: (g, np.linalg.solve(H, g) / se)); ll = D.loglike(th, reml)
    cx.ok("no worse than the start", ll <= D.loglike(th0, reml) + 1e-6)
    n, p, k = D.n, D.X.shape[1], len(th); ne = n - p if reml else n; d = k if reml else k + p; l2 = ll + ne * np.log(2 * np.pi)
    cx.close("likelihood and information criteria", [m.ll, m.llf, m.AIC, m.AICC, m.BIC, m.CAIC], [l2, -l2 / 2, l2 + 2 * d, l2 + 2 * d * ne / (ne - d - 1), l2 + d * np.log(ne), l2 + d * (np.log(ne) + 1)], 1e-8, 1e-6)
    cx.close("likelihood and information criteria", m.sumstats["value"].loc[["ll", "llf", "AIC", "AICC", "BIC", "CAIC"]], [m.ll, m.llf, m.AIC, m.AICC, m.BIC, m.CAIC], 1e-12)
    b, C, u = D.effects(th); cx.closen("fixed effects", m.beta, b, 1e-6, 1e-7); cx.closen("random effects", m.u, np.concatenate(u), 1e-6, 1e-7); cx.closen("fixed-effect standard errors", m.se_beta, np.sqrt(np.diag(C)), 1e-6)
    cx.closen("variance-parameter standard errors", m.se_theta, se, 2e-3)
    for i, S in enumerate(D.G(th)): s = np.sqrt(np.diag(S)); cx.close("random-effect covariance", m.re_covs[i], S, 1e-9); cx.close("random-effect correlation", m.re_corrs[i], S / np.outer(s, s), 1e-9)
    R = m.res; cx.close("table", R[["estimate", "SE"]].values, np.c_[np.r_[m.beta, th], np.r_[m.se_beta, m.se_theta]], 1e-12); cx.ok("table labels", len(set(R.index)) == len(R) and R.index[-1] == "resid_cov")
    Z = np.concatenate(D.Z, 1); f = D.X @ b + Z @ np.concatenate(u); cx.closen("predictions", np.asarray(m.predict()).ravel(), f, 1e-6, 1e-7); cx.closen("predictions for new designs", np.asarray(m.predict(X=D.X[:4] * .5, Z=Z[:4] * 2)).ravel(), D.X[:4] @ b * .5 + 2 * Z[:4] @ np.concatenate(u), 1e-6, 1e-7)
    t = np.r_[m.beta, th] / np.r_[m.se_beta, m.se_theta]
    return th, H, t


def gen(cx):
    r = cx.rng; d = lmmo.make(r, well=True)
    if r.random() < .4:      # unusual scales, another index
        d["df"]["y"] *= 10.0 ** r.uniform(-.7, .7)
    if r.random() < .5: d["df"].index = r.permutation(d["n"]) + 100
    return r, d


@workload("LMM fit", quick=32, thorough=320, shards=8, timeout=900)
def lmm(cx):
    r, d = gen(cx); D = lmmo.Dense(d, "sorted"); reml = bool(r.random() < .6); adj = bool(r.random() < .6); ana = bool(r.random() < .5); hs = int(r.integers(3)); df0 = d["df"].copy(deep=True); cx.case([d["re"], d["fe"], d["labels"], reml, adj, ana, hs])
    m = LMM(d["formula"], d["df"]); th0 = np.asarray(m.theta, float).copy(); fit(cx, m, D, reml, adjusted_pvals=adj, analytic_se=ana, use_hess=hs == 1, approx_hess=hs == 2); cx.ok("data untouched", d["df"].equals(df0))
    th, H, t = common(cx, m, D, reml, th0); R = m.res; p = D.X.shape[1]; j = np.arange(len(t))
    cx.closen("inverse information of the fixed effects", m.Hinv_beta, D.parts(th)[3], 1e-6); cx.closen("covariance of the variance parameters", m.Hinv_theta, 2 * np.linalg.inv(H), 5e-3)
    if adj and reml:
        for i in range(p):
            L = np.eye(p)[i]; F, nu = satt(D, th, H, L)
            if nu > 2.5: row = R.iloc[i]; cx.close("adjusted test", [abs(row["t"]), row["degfree"], row["p"]], [np.sqrt(F), nu, st.f(1, nu).sf(F)], 5e-3, 1e-8)
    k = j[p:] if adj else j; cx.close("table test statistics", R["t"].values[k], t[k], 1e-9); cx.close("table p-values", R["p"].values[k], 2 * st.t(D.n - p).sf(np.abs(t[k])), 1e-8, 1e-300)


@workload("LMM2 fit", quick=32, thorough=320, shards=8, timeout=900)
def lmm2(cx):
    r, d = gen(cx); D = lmmo.Dense(d, "appearance"); reml = bool(r.random() < .6); df0 = d["df"].copy(deep=True); cx.case([d["re"], d["fe"], d["labels"], reml])
    m = LMM2(d["formula"], d["df"]); th0 = np.asarray(m.mme.re_mod.theta, float).copy(); fit(cx, m, D, reml); cx.ok("data untouched", d["df"].equals(df0))
    th, H, t = common(cx, m, D, reml, th0); R = m.res; p = D.X.shape[1]; cx.close("table test statistics", R["t"].values, t, 1e-9); cx.close("table p-values", R["p"].values, 2 * st.t(D.n - p).sf(np.abs(t)), 1e-8, 1e-300)
    b, C, u = D.effects(th); V, Vi, XV, C, P = D.parts(th); al = float(r.uniform(.01, .3)); q = st.t(D.n - p).ppf(1 - al / 2); s = np.sqrt(np.diag(C)); cx.closen("confidence intervals", m.confint(al).values, np.c_[b - q * s, b + q * s], 1e-6, 1e-7)
    Z = np.concatenate(D.Z, 1); Gf = [np.kron(A, G) for A, G in zip(D.A, D.G(th))]; import scipy.linalg as sl
    GF = sl.block_diag(*Gf); pev = GF - GF @ Z.T @ P @ Z @ GF; cx.closen("prediction error of random effects", m.random_effects_se(), np.sqrt(np.diag(pev)), 1e-5, 1e-7)
    pt = m.random_effects("per_term"); lg = m.random_effects("long"); mu = m.random_effects("multi"); uc = np.concatenate(u); cx.closen("random effects by term", np.concatenate([pt[k].values.ravel() for k in range(len(u))]), uc, 1e-6, 1e-7); cx.closen("random effects, long", lg["estimate"].values, uc, 1e-6, 1e-7); cx.closen("random effects, long", lg["SE"].values, np.sqrt(np.diag(pev)), 1e-5, 1e-7)
    cx.ok("random effects, stacked", len(mu) == sum(len(l) for l in D.lev)); cx.closen("random effects array", m.random_effects_array(), uc, 1e-6, 1e-7)
    for k in range(len(u)): cx.ok("one row per level", pt[k].shape == (len(D.lev[k]), D.q[k]))
    vd = m.variance_decomposition(); vf = np.var(D.X @ b); vr = [np.trace(Zk @ Gk @ Zk.T) / D.n for Zk, Gk in zip(D.Z, Gf)]; cx.close("variance decomposition", [vd["v_fe"], *[vd["v_re"][k] for k in range(len(vr))], vd["v_resid"]], [vf, *vr, th[-1]], 1e-6, 1e-9); tot = vf + sum(vr) + th[-1]; q2 = m.r_squared(); cx.close("R-squared", [q2["marginal"], q2["conditional"], *[q2["per_term"][k] for k in range(len(vr))]], [vf / tot, (vf + sum(vr)) / tot, *[v / tot for v in vr]], 1e-6, 1e-9)
    # Satterthwaite tests, in the parametrisation of the fit
    if reml:
        Ls = [np.eye(p)[[i]] for i in range(p)] + ([r.normal(size=(1, p))] if p > 1 else [])
        for L, o in zip(Ls, m.approx_degfree(Ls)):
            F, nu = satt(D, th, H, L[0])
            if nu > 2.5: cx.close("Satterthwaite test", [o["F"], o["df1"], o["df2"], o["p"]], [F, 1, nu, st.f(1, nu).sf(F)], 5e-3, 1e-8)
        if p > 1: o = m.approx_degfree([np.eye(p)])[0]; bb = D.effects(th)[0]; cx.close("joint Wald statistic", o["F"], bb @ np.linalg.solve(C, bb) / p, 1e-5)
    if len(d["re"]) == 2 and not reml:
        s1 = dict(d, formula=f"y ~ {d['fe']} + ({d['re'][0]}|{d['gr'][0]})"); m1 = LMM2(s1["formula"], d["df"]); fit(cx, m1, lmmo.Dense(dict(d, re=d["re"][:1], gr=d["gr"][:1])), False); o = m.lrt(m1); s_ = m1.ll - m.ll; k = len(m.theta) - len(m1.theta); cx.close("likelihood-ratio test", o.values[0], [s_, k, st.chi2(k).sf(s_)], 1e-9, 1e-300)


@workload("equivariance", quick=16, thorough=160, shards=8, timeout=900)
def equi(cx):
    r, d = gen(cx); kind = ["LMM", "LMM2"][r.integers(2)]; reml = bool(r.random() < .5); cx.case([kind, d["re"], d["fe"], reml, d["labels"]]); K = LMM if kind == "LMM" else LMM2; df = d["df"]; D = lmmo.Dense(d)
    m = K(d["formula"], df); fit(cx, m, D, reml); th = np.asarray(m.theta); usable(cx, D, th, reml); se = np.asarray(m.se_theta); sb = np.asarray(m.se_beta); f0 = np.asarray(m.predict()).ravel()
    if np.abs(np.linalg.solve(D.hessian(th, reml), D.gradient(th, reml)) / se).max() > .01: cx.skip("not converged tightly")
    def same(nm, m2, sc=1.0, db=0.0, perm=slice(None), shift=0.0):
        D2 = lmmo.Dense(dict(d, df=d2)); x2 = np.asarray(m2.theta)
        if np.abs(np.linalg.solve(D2.hessian(x2, reml), D2.gradient(x2, reml)) / np.asarray(m2.se_theta)).max() > .05: cx.skip("not converged tightly")
        t2 = np.asarray(m2.theta) / sc ** 2
        cx.ok(nm + ": covariance parameters", np.all(np.abs(t2 - th) < .06 * se), lambda: (t2, th, se)); cx.ok(nm + ": fixed effects", np.all(np.abs((np.asarray(m2.beta) - db) / sc - m.beta) < .03 * sb), lambda: (m2.beta, m.beta)); cx.close(nm + ": standard errors", np.asarray(m2.se_beta) / sc, sb, 2e-2); cx.ok(nm + ": fitted values", np.all(np.abs((np.asarray(m2.predict()).ravel() - shift) / sc - f0[perm]) < .05 * np.sqrt(th[-1]))); ne = D.n - (D.X.shape[1] if reml else 0); cx.close(nm + ": likelihood", m2.ll, m.ll + ne * np.log(sc ** 2), 1e-6, 2e-3)
    def refit(m2):
        try: m2.fit(reml=reml)
        except np.linalg.LinAlgError: cx.skip("line search left the domain")
    w = r.integers(4)
    if w == 0: pm = r.permutation(d["n"]); d2 = df.iloc[pm]; m2 = K(d["formula"], d2); refit(m2); same("row order", m2, perm=pm)
    elif w == 1:
        d2 = df.copy()
        for g in ("g1", "g2"):
            lv = list(dict.fromkeys(np.asarray(df[g]).tolist())); nw = [f"new{i:03d}" for i in r.permutation(len(lv))]; d2[g] = [dict(zip(lv, nw))[v] for v in np.asarray(df[g]).tolist()]
        m2 = K(d["formula"], d2); refit(m2); same("level labels", m2)
    elif w == 2: s = 10.0 ** r.uniform(-.25, .25); d2 = df.copy(); d2["y"] = df.y * s; m2 = K(d["formula"], d2); refit(m2); same("scaling the outcome", m2, sc=s)
    else: dl = r.normal(size=D.X.shape[1]) * 2; d2 = df.copy(); d2["y"] = df.y + D.X @ dl; m2 = K(d["formula"], d2); refit(m2); same("shifting the outcome", m2, db=dl, shift=D.X @ dl)


@workload("profile likelihood", quick=3, thorough=24, shards=3, timeout=900)
def prof(cx):
    r = cx.rng; d = lmmo.make(r, n_terms=1, well=True); reml = bool(r.random() < .5); D = lmmo.Dense(d); m = LMM2(d["formula"], d["df"]); fit(cx, m, D, reml); th = np.asarray(m.theta); usable(cx, D, th, reml); cx.case([d["re"], d["fe"], reml])
    with contextlib.redirect_stderr(io.StringIO()): T, z, ix = m.profile(n_points=4, tb=1.5)
    ll = D.loglike(th, reml); k = len(th); cx.ok("four points per parameter", T.shape == (4 * k, k) and np.array_equal(ix, np.repeat(np.arange(k), 4)))
    for i in range(4 * k):
        l = D.loglike(T[i], reml); cx.close("signed root of the likelihood ratio", z[i] ** 2, max(l - ll, 0), 1e-4, 1e-4)
    # constrained optimum: no feasible improvement when the profiled parameter is the residual variance
    from scipy.optimize import minimize
    for i in range(4 * (k - 1), 4 * k, 2):
        t0 = T[i]; S = D.G(t0)[0]; L = np.linalg.cholesky(S); il = np.tril_indices(len(S))
        def f(v): L_ = np.zeros_like(L); L_[il] = v; G = L_ @ L_.T; return D.loglike(np.r_[[G[a, b] for b in range(len(G)) for a in range(b, len(G))], t0[-1]], reml)
        o = minimize(f, L[il], method="Nelder-Mead", options=dict(xatol=1e-6, fatol=1e-8, maxiter=600)); cx.ok("profiled over the other parameters", f(L[il]) <= o.fun + 2e-3, lambda: (f(L[il]), o.fun))
    cx.ok("sign follows the side of the estimate", all(np.all(np.diff(z[ix == i]) > -1e-6) for i in range(k)), lambda: z)
    al = float(r.uniform(.2, .5)); ci = m.profile_confint(T, z, ix, al).values; q = st.norm.ppf(1 - al / 2)
    for i in range(k): zz = z[ix == i]; xx = T[ix == i, i]; cx.ok("interval brackets the estimate", ci[i, 0] < th[i] < ci[i, 1] if zz[0] < 0 < zz[-1] else True); cx.close("interval solves the signed root", [np.interp(q, zz, xx)] if zz[-1] > q else [], [ci[i, 1]] if zz[-1] > q else [], 1e-6, 1e-8)
