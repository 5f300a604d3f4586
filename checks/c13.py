"""C13: likelihood inference helpers against textbook formulas and contour evaluation."""
import numpy as np, scipy as sp, scipy.stats as st, pandas as pd
from vlib.mon import workload
from pystatsm.pyglm2.likelihood_model import LikelihoodModel as LM
from pystatsm.pyglm2.regression_model import RegressionMixin
from pystatsm.pyglm2 import glm as g2, families as f2, clm as clm2
from pystatsm.pyglm2.ols import OLS
from pystatsm.utilities import output


class Quad:
    """Quadratic negative log-likelihood."""
    def __init__(s, r, k): A = r.normal(size=(k, k + 2)); s.H = A @ A.T * np.exp(r.normal()) + .05 * np.eye(k); s.m = r.normal(size=k) * 2; s.c = float(r.normal() * 10); s.k = k
    def f(s, t): d = np.asarray(t) - s.m; return s.c + .5 * d @ s.H @ d
    def g(s, t): return s.H @ (np.asarray(t) - s.m)
    def h(s, t): return s.H


class Reg:
    """A regular regression likelihood (poisson, logit or gaussian with log scale)."""
    def __init__(s, r, kind, p):
        n = int(r.integers(40, 90)); s.X = np.c_[np.ones(n), r.normal(size=(n, p - 1))]; s.kind = kind; e = s.X @ (r.normal(size=p) * .4); s.k = p + (kind == "gauss"); s.y = r.poisson(np.exp(e)).astype(float) if kind == "pois" else (r.random(n) < 1 / (1 + np.exp(-e))).astype(float) if kind == "logit" else e + r.normal(size=n); t = np.zeros(s.k)
        for _ in range(60): t = t - np.clip(np.linalg.solve(s.h(t) + 1e-9 * np.eye(s.k), s.g(t)), -1, 1)
        s.m = t; s.H = s.h(t)
    def f(s, t):
        e = s.X @ t[:s.X.shape[1]]
        return np.sum(np.exp(e) - s.y * e) if s.kind == "pois" else np.sum(np.logaddexp(0, e) - s.y * e) if s.kind == "logit" else np.sum((s.y - e) ** 2) / 2 * np.exp(-2 * t[-1]) + len(e) * t[-1]
    def g(s, t):
        p = s.X.shape[1]; e = s.X @ t[:p]
        if s.kind == "gauss": w = np.exp(-2 * t[-1]); return np.r_[-w * s.X.T @ (s.y - e), len(e) - w * np.sum((s.y - e) ** 2)]
        return s.X.T @ ((np.exp(e) if s.kind == "pois" else 1 / (1 + np.exp(-e))) - s.y)
    def h(s, t):
        p = s.X.shape[1]; e = s.X @ t[:p]
        if s.kind == "gauss": w = np.exp(-2 * t[-1]); c = 2 * w * s.X.T @ (s.y - e); return np.block([[w * s.X.T @ s.X, c[:, None]], [c[None], np.array([[2 * w * np.sum((s.y - e) ** 2)]])]])
        q = 1 / (1 + np.exp(-e)); return (s.X * (np.exp(e) if s.kind == "pois" else q * (1 - q))[:, None]).T @ s.X


def model(cx):
    r = cx.rng; kind = str(r.choice(["quad", "pois", "logit", "gauss"])); k = int(r.integers(2, 6)); M = Quad(r, k) if kind == "quad" else Reg(r, kind, k - (kind == "gauss"))
    if np.abs(M.g(M.m)).max() > 1e-6 or np.linalg.cond(M.H) > 1e5 or np.abs(M.m).max() > 5: cx.skip("no regular maximum")
    return kind, M


def restricted(M, ind, val):
    """Minimum of M over the free coordinates, by Newton iterations."""
    t = M.m.copy(); t[ind] = val; fr = np.setdiff1d(np.arange(M.k), ind)
    if not len(fr): return M.f(t), t
    for _ in range(200):
        g = M.g(t)[fr]; s = np.linalg.solve(M.h(t)[np.ix_(fr, fr)] + 1e-10 * np.eye(len(fr)), g); a = 1.; f0 = M.f(t)
        while a > 1e-8:
            u = t.copy(); u[fr] -= a * s
            if M.f(u) <= f0 + 1e-12 * abs(f0): break
            a /= 2
        t = u
        if np.abs(a * s).max() < 1e-10: break
    return M.f(t), t


@workload("criteria and tables", quick=400, thorough=20000)
def crit(cx):
    r = cx.rng; n = int(r.integers(2, 5000)); k = int(r.integers(1, 40)); nll = float(np.exp(r.normal(scale=2)) * n * .5); l0 = nll * float(np.exp(r.exponential() * .3)) + float(k * (r.random() < .5)); cx.case([n < 50, n <= k + 1]); a, ac, b, ca = LM._get_information(nll, k, n); cx.close("AIC", a, 2 * nll + 2 * k, 1e-12); cx.close("BIC", b, 2 * nll + k * np.log(n), 1e-12); cx.close("CAIC", ca, 2 * nll + k * (np.log(n) + 1), 1e-12)
    if n != k + 1: cx.close("AICc", ac, 2 * nll + 2 * k + 2 * k * (k + 1) / (n - k - 1), 1e-9)
    LR = 2 * (l0 - nll); R = LM._get_pseudo_rsquared(nll, l0, k, n); mx = 1 - np.exp(-2 * l0 / n); cs = 1 - np.exp(-LR / n); an = LR / (LR + n); cx.close("pseudo R squared", R, [cs, cs / mx, 1 - nll / l0, 1 - (nll + k) / l0, 1 - (nll / l0) ** (2 * l0 / n), 1 - ((nll + k) / l0) ** (2 * l0 / n), an, an * (2 * l0 + n) / (2 * l0), LR], 1e-8, 1e-10)
    m = int(r.integers(1, 6)); p = r.normal(size=m); se = np.exp(r.normal(size=m)); df = [None, int(r.integers(1, 80))][int(r.integers(2))]; al = float(r.choice([.05, .01, .1])); lab = [f"b{i}" for i in range(m)]; T = output.get_param_table(p, se, df, lab, alpha=al); d = st.norm if df is None else st.t(df); z = p / se
    cx.close("table", T.to_numpy(), np.c_[p, se, z, 2 * d.sf(np.abs(z)), p - d.isf(al / 2) * se, p + d.isf(al / 2) * se], 1e-8, 1e-12); cx.ok("table labels", list(T.index) == lab); cx.close("default table", LM._parameter_inference(p, se, df, lab).to_numpy(), output.get_param_table(p, se, df, lab).to_numpy(), 1e-12)
    y = r.normal(size=m + 2) * 3; yh = r.normal(size=m + 2); cx.close("R squared", RegressionMixin._rsquared(y, yh), 1 - ((y - yh) ** 2).sum() / ((y - y.mean()) ** 2).sum(), 1e-10)


@workload("likelihood ratio, Wald and score tests", quick=300, thorough=8000)
def tests(cx):
    kind, M = model(cx); r = cx.rng; q = int(r.integers(1, M.k + 1)); C = r.normal(size=(q, M.k)); cx.case([kind, q, M.k]); H = M.H; d = C @ M.m; Q = Quad.__new__(Quad); Q.H, Q.m, Q.c, Q.k = H, M.m, M.f(M.m), M.k; Hi = np.linalg.inv(H); t0 = M.m - Hi @ C.T @ np.linalg.solve(C @ Hi @ C.T, d); D = lambda f: (float(f["Stat"].iloc[0]), int(f["df"].iloc[0]), float(f["P Value"].iloc[0])) if isinstance(f, pd.DataFrame) else (float(f["Stat"]), int(f["df"]), float(f["P Value"])); rd = bool(r.integers(2))
    if rd: kw = dict(return_dataframe=True)
    else: kw = dict(return_dataframe=False)
    W = D(LM._wald_test(M.m, t0, C, Hi, H, **kw)); S = D(LM._score_test(Q.g(t0), C, Hi, H, **kw)); L = D(LM._lr_test(-Q.f(M.m), -Q.f(t0), q, **kw)); want = float(d @ np.linalg.solve(C @ Hi @ C.T, d)); pv = st.chi2(q).sf(want)
    for nm, T in (("Wald", W), ("score", S), ("likelihood ratio", L)): cx.close("exact agreement for a quadratic likelihood", T[0], want, 1e-5, 1e-7); cx.ok("degrees of freedom", T[1] == q); cx.close("p value", T[2], pv, 1e-4, 1e-9)
    B = r.normal(size=(M.k, M.k + 1)); B = B @ B.T; V = C @ Hi @ B @ Hi @ C.T; t1 = r.normal(size=M.k); a = C @ (M.m - t1); cx.close("robust Wald", D(LM._wald_test(M.m, t1, C, Hi, B, **kw))[0], a @ np.linalg.solve(V, a), 1e-5); g = r.normal(size=M.k); u = C @ Hi @ g; cx.close("robust score", D(LM._score_test(g, C, Hi, B, **kw))[0], u @ np.linalg.solve(V, u), 1e-5)
    A = r.normal(size=(M.k, M.k)) + 2 * np.eye(M.k); Ai = np.linalg.inv(A)
    if np.linalg.cond(A) < 100: cx.close("Wald invariant to reparametrization", D(LM._wald_test(A @ M.m, A @ t0, C @ Ai, A @ Hi @ A.T, Ai.T @ H @ Ai, **kw))[0], want, 1e-4, 1e-7)


@workload("profile likelihoods", quick=60, thorough=900, shards=3)
def prof(cx):
    kind, M = model(cx); r = cx.rng; q = int(r.integers(1, M.k)); ind = r.choice(M.k, q, replace=False); se = np.sqrt(np.diag(np.linalg.inv(M.H))); val = M.m[ind] + r.normal(size=q) * se[ind] * 1.5; cx.case([kind, q, M.k]); p0 = M.m.copy(); want, tw = restricted(M, ind, val); arg = (val if q > 1 else float(val[0]), ind if q > 1 else int(ind[0]))
    for nm, fn in (("constrained", LM._profile_loglike_constrained), ("restricted", LM._profile_loglike_restricted)):
        got = fn(*arg, p0, M.f, M.g, M.h); cx.close("profile value", got, want, 1e-5, 2e-4); cx.ok("parameters untouched", np.array_equal(p0, M.m)); info = fn(*arg, p0, M.f, M.g, M.h, return_info=True)
        if nm == "constrained": cx.close("constrained values", info.x[ind], val, 1e-5, 1e-5)
    cs = LM._make_constraints(list(ind), list(val)); x = r.normal(size=M.k); cx.ok("one constraint per fixed parameter", len(cs) == q and all(c["type"] == "eq" for c in cs)); cx.close("constraint functions", [float(np.ravel(c["fun"](x))[0]) for c in cs], x[ind] - val, 1e-12); mask = np.zeros(M.k, bool); mask[ind] = True; so = np.sort(ind); cx.close("constraints from a mask", [float(np.ravel(c["fun"](x))[0]) for c in LM._make_constraints(mask, x[so] * 2)], -x[so], 1e-12)


@workload("profile intervals", quick=60, thorough=900, shards=2)
def interval(cx):
    kind, M = model(cx); r = cx.rng; j = int(r.integers(M.k)); se = float(np.sqrt(np.linalg.inv(M.H)[j, j])); lev = float(r.choice([.5, .9, .95, .99, .999])); cut = M.f(M.m) + st.chi2(1).ppf(lev) / 2; cx.case([kind, lev]); pl = lambda t: restricted(M, np.array([j]), np.atleast_1d(t)[:1])[0]
    if pl(M.m[j] - 15 * se) < cut or pl(M.m[j] + 15 * se) < cut: cx.skip("flat profile")
    meth = "root" if r.random() < .8 else "lstq"; a, b = (float(np.ravel(v)[0]) for v in LM._solve_interval(pl, float(M.m[j]), se, cut, method=meth)); tol = 1e-4 if meth == "root" else 5e-3; cx.close("endpoints on the contour", [pl(a) - cut, pl(b) - cut], [0, 0], 0, tol)
    cx.ok("interval contains the estimate", a < M.m[j] < b, (a, M.m[j], b)); mid = np.linspace(a, b, 7)[1:-1]; cx.ok("likelihood higher inside", all(pl(t) <= cut + 1e-6 for t in mid))
    if kind == "quad": h = se * np.sqrt(st.chi2(1).ppf(lev)); cx.close("quadratic interval", [a, b], [M.m[j] - h, M.m[j] + h], 1e-3, 5e-3 * se)


@workload("termwise tests of fitted models", quick=30, thorough=400, shards=3)
def term(cx):
    r = cx.rng; n = int(r.integers(60, 150)); df = pd.DataFrame(dict(a=r.normal(size=n), b=r.normal(size=n), c=r.choice(list("uvw"), n))); fam = str(r.choice(["Poisson", "Binomial"])); e = .3 + .3 * df.a + .3 * (df.c == "v"); df["y"] = r.poisson(np.exp(e)) if fam == "Poisson" else (r.random(n) < 1 / (1 + np.exp(-e))).astype(float); m = g2.GLM("y~a+C(c)+b", data=df, family=getattr(f2, fam)(), scale_estimator="fixed"); m.fit(); cx.case([fam], n=n); m.ll_tests(); X, y = m.X, m.y; p = X.shape[1]; inv = np.exp if fam == "Poisson" else lambda t: 1 / (1 + np.exp(-t)); var = (lambda mu: mu) if fam == "Poisson" else (lambda mu: mu * (1 - mu)); H = lambda b: (X * var(inv(X @ b))[:, None]).T @ X; S = lambda b: X * (inv(X @ b) - y)[:, None]; bh = m.params[:p]
    di = m.x_design_info; names = [t for t in di.term_names if t != "Intercept"]; cx.ok("one test per term", m.wald_tests.index.get_level_values(0).tolist() == names and m.score_tests.index.get_level_values(0).tolist() == names)
    m.make_termwise_constraint_matrices(); 
    for nm in names:
        sl = di.term_name_slices[nm]; z = np.arange(p)[sl]; C = np.eye(p)[z]; cx.ok("constraint matrices", np.array_equal(m.constraint_matrices[nm], C)); fr = np.setdiff1d(np.arange(p), z); b = np.zeros(p)
        for _ in range(50): b[fr] -= np.linalg.solve(H(b)[np.ix_(fr, fr)], S(b).sum(0)[fr])
        A = np.linalg.inv(H(bh)); V = A @ S(bh).T @ S(bh) @ A; a = C @ bh; w = a @ np.linalg.solve(C @ V @ C.T, a); T = m.wald_tests.loc[nm].iloc[0]; cx.close("Wald statistic", T["Stat"], w, 1e-3, 1e-4); cx.ok("degrees of freedom", T["df"] == len(z)); cx.close("Wald p", T["P Value"], st.chi2(len(z)).sf(w), 1e-2, 1e-5)
        A = np.linalg.inv(H(b)); V = A @ S(b).T @ S(b) @ A; a = C @ A @ S(b).sum(0); w = a @ np.linalg.solve(C @ V @ C.T, a); T = m.score_tests.loc[nm].iloc[0]; cx.close("score statistic", T["Stat"], w, 2e-2, 2e-2); cx.close("score p", T["P Value"], st.chi2(len(z)).sf(w), .1, 5e-3)
