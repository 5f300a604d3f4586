"""C22: structural equation fits are stationary, order-invariant and report matching statistics."""
import contextlib
import io
import numpy as np
import pandas as pd
import scipy.stats as ss
from vlib.mon import workload, nderiv
from vlib import semo
from checks.c20 import data, build, perm


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def simulate(cx, spec, G, shared, exact=False):
    """data generated from the model at a drawn parameter vector; returns the data and the values"""
    rng = cx.rng
    df = data(cx, spec, G, n=int(rng.integers(250, 500)))
    orc = semo.Model(spec, df, "grp" if G > 1 else None, shared)
    for _ in range(60):
        v = semo.draw(rng, spec, G, shared)
        M = orc.moments_by(v)
        if all(np.linalg.eigvalsh(S).min() > .15 for S, _ in M):
            break
    else:
        cx.skip("inadmissible draw")
    for S, mu in M:
        pass
    cols = list(spec.obs)
    gv = np.zeros(len(df), int) if G == 1 else np.unique(df["grp"], return_inverse=True)[1]
    lox = [c for c in cols if c in spec.lox]
    rest = [c for c in cols if c not in spec.lox]
    for g in range(G):
        S, mu = M[g]
        ix = np.flatnonzero(gv == g)
        io_, ir = [cols.index(c) for c in lox], [cols.index(c) for c in rest]
        X0 = df.iloc[ix][lox].values.astype(float)
        Z = rng.normal(size=(len(ix), len(rest)))
        if exact:                                                   # residuals with exactly the conditional moments
            A = np.c_[np.ones(len(ix)), X0]
            Z = Z - A @ np.linalg.lstsq(A, Z, rcond=None)[0]
            Z = Z @ np.linalg.inv(np.linalg.cholesky(Z.T @ Z / len(ix))).T
        if lox:
            Sxx, mx = np.cov(X0.T, ddof=0).reshape(len(lox), len(lox)), X0.mean(0)
            Bt = np.linalg.solve(S[np.ix_(io_, io_)], S[np.ix_(io_, ir)])
            C = S[np.ix_(ir, ir)] - S[np.ix_(ir, io_)] @ Bt
            Y = mu[ir] + (X0 - mu[io_]) @ Bt + Z @ np.linalg.cholesky(C).T
        else:
            Y = mu[ir] + Z @ np.linalg.cholesky(S[np.ix_(ir, ir)]).T
        for k, c in enumerate(rest):
            df.iloc[ix, df.columns.get_loc(c)] = Y[:, k]
    return df, v


def prepare(cx, exact=False):
    rng = cx.rng
    spec, kind = semo.make(rng, means=True)
    G = int(rng.choice([1, 1, 1, 2]))
    shared = [True] * 6 if G == 1 else [bool(rng.random() < .6) for _ in range(6)]
    if G > 1:
        shared[2] = shared[3] = False if rng.random() < .5 else True
    if any(k[0] == "~~" and k[1] != k[2] and k[1] in spec.lox and k[2] in spec.lox and v[0] != "sample" for k, v in spec.table().items()):
        cx.skip("moments of the predictors are modelled")
    df, v = simulate(cx, spec, G, shared, exact)
    return spec, kind, G, shared, df, v


METHODS = [dict(), dict(use_hess=True), dict(minimize_kws=dict(method="TNC"), minimize_options=dict(maxfun=5000, ftol=1e-15, gtol=1e-9)),
           dict(minimize_kws=dict(method="L-BFGS-B"), minimize_options=dict(maxiter=5000, ftol=1e-15, gtol=1e-8))]


def fit(cx, m, k):
    kw = {a: (dict(b) if isinstance(b, dict) else b) for a, b in METHODS[k].items()}
    try:
        quiet(m.fit, **kw)
    except np.linalg.LinAlgError:
        cx.skip("fit left the admissible region")
    r = m.opt_res
    if not (r.success or r.status in (1, 2)):
        cx.skip("not converged")
    return r


@workload("fits", quick=24, thorough=320, shards=8, timeout=500)
def fits(cx):
    rng = cx.rng
    gen = 2 if cx.it % 2 else 1
    spec, kind, G, shared, df, v = prepare(cx)
    m = build(cx, gen, spec, df, G, shared)
    orc = semo.Model(spec, df, "grp" if G > 1 else None, shared)
    names = list(m.theta_names)
    canon = [spec.canon(x) for x in names]
    if set(canon) != set(orc.exp):
        cx.skip("parameters differ")                                # decided by C20
    k = int(rng.integers(len(METHODS)))
    th0 = np.array(m.theta, float)
    with np.errstate(all="ignore"):
        r = fit(cx, m, k)
    th = np.asarray(m.theta, float)
    f = lambda t: orc.f(names, t)
    robust = bool(rng.random() < .4)
    H = hess(f, th)
    sd = np.sqrt(np.abs(np.diag(H)))
    Hs = H / np.outer(sd, sd)
    if not np.isfinite(Hs).all() or np.linalg.eigvalsh(Hs).min() < 1e-4:
        cx.skip("not identified or boundary solution")
    cx.case((gen, kind, G, k, tuple(shared)), formula=spec.text())
    f1 = f(th)
    cx.close("reported minimum is the objective at the estimate", r.fun, f1, 1e-8, 1e-8)
    lo = f(th0)
    cx.ok("objective is not above its starting value", f1 <= lo + 1e-8 or not np.isfinite(lo), (f1, lo))
    vt = np.array([v[c] for c in canon])
    cx.ok("objective is not above its value at the generating parameters", f1 <= f(vt) + 1e-5, (f1, f(vt)))
    g = nderiv(f, th)[0]
    inner = np.array([not (b[0] is not None and b[0] == b[0] and t - b[0] < 1e-3) for t, b in zip(th, getattr(m, "bounds_theta", m.bounds))])
    se = np.sqrt(np.diag(np.linalg.inv(H)))
    cx.close("gradient vanishes at the estimate", (g * se)[inner], 0, atol=2e-2 if k == 0 else 5e-3)
    P = perm(m, orc)
    Sg, mu = m.implied_cov_mean(th)
    for gg in range(G):
        ref = orc.moments(names, th)[gg]
        cx.closen("implied moments at the estimate", np.r_[Sg[gg].ravel(), mu[gg]], np.r_[ref[0][np.ix_(P, P)].ravel(), ref[1][P]], 1e-9)
    # saturated mean structure is reproduced
    R = m.res
    cols = list(R.columns)
    cx.ok("results are indexed by the free parameters", list(R.index) == names, "")
    cx.close("reported estimates", R.iloc[:, 0].values, th, 1e-12)
    cx.close("reported standard errors", R.iloc[:, 1].values, se, 2e-2)
    cx.close("reported t statistics", R.iloc[:, 2].values, th / R.iloc[:, 1].values, 1e-9)
    dfree = len(df) - 2
    cx.close("reported p values", R.iloc[:, 3].values, 2 * ss.t(dfree).sf(np.abs(R.iloc[:, 2].values)), 1e-8, 1e-12)
    q = ss.t(dfree).ppf(.975) * R.iloc[:, 1].values
    cx.close("reported intervals", R.iloc[:, 4:6].values, np.c_[th - q, th + q], 1e-8, 1e-10)
    if robust:
        nll = lambda t: np.concatenate(orc.nll_obs(names, t))
        J = np.stack([(nll(th + e) - nll(th - e)) / (2 * e.max()) for e in np.eye(len(th)) * 1e-5])
        V = np.linalg.inv(H)
        cx.close("robust standard errors", m.get_standard_errors(th, robust=True), np.sqrt(np.diag(V @ J @ J.T @ V)), 3e-2)
    # every row of the per-group table
    fr = m.res_free
    back = m.transform_theta_to_free(th)
    cx.close("table of all groups repeats the estimates", fr.iloc[:, 0].values, back, 1e-12)
    # labelled matrices
    T = spec.table()
    for gg in range(G):
        val = {c: x for c, x in zip(canon, th)}
        full = orc.full(val, gg)
        for key, x in full.items():
            j = spec.mat(key)
            M = m.mats[gg][j]
            rel, a, b = key
            if rel == "=~":
                got = [M.loc[b, a]]
            elif j == 1:
                got = [M.loc[a, b]]
            elif j in (2, 3):
                got = [M.loc[a, b], M.loc[b, a]]
            else:
                got = [M[a].iloc[0]]
            cx.close("reported matrices hold the estimates under their names", got, [x] * len(got), 1e-9, 1e-12)


def hess(f, th):
    n = len(th)
    h = 1e-3 * np.maximum(np.abs(th), .1)
    H = np.zeros((n, n))
    E = np.diag(h)
    f0 = f(th)
    fp = [f(th + E[i]) for i in range(n)]
    fm = [f(th - E[i]) for i in range(n)]
    for i in range(n):
        H[i, i] = (-f(th + 2 * E[i]) + 16 * fp[i] - 30 * f0 + 16 * fm[i] - f(th - 2 * E[i])) / (12 * h[i] ** 2)
        for j in range(i):
            H[i, j] = H[j, i] = (f(th + E[i] + E[j]) - f(th + E[i] - E[j]) - f(th - E[i] + E[j]) + f(th - E[i] - E[j])) / (4 * h[i] * h[j])
    return H


@workload("exact population", quick=16, thorough=160, shards=8, timeout=500)
def population(cx):
    """sample moments equal to the moments of the model give a perfect fit"""
    rng = cx.rng
    gen = 2 if cx.it % 2 else 1
    spec, kind, G, shared, df, v = prepare(cx, exact=True)
    m = build(cx, gen, spec, df, G, shared)
    orc = semo.Model(spec, df, "grp" if G > 1 else None, shared)
    names = list(m.theta_names)
    if set(spec.canon(x) for x in names) != set(orc.exp):
        cx.skip("parameters differ")
    vt = np.array([v[spec.canon(x)] for x in names])
    ff = m.fit_func if gen == 2 else m.func
    cx.close("objective is zero at the generating parameters", ff(vt), 0, atol=1e-7)
    g = m.gradient(vt)
    cx.close("gradient is zero at the generating parameters", g, 0, atol=1e-6 * len(df))
    k = int(rng.integers(len(METHODS)))
    with np.errstate(all="ignore"):
        r = fit(cx, m, k)
    gn = np.abs(m.gradient(m.theta)).max()
    if gn > 1e-3 * len(df) or r.fun > 1:
        cx.skip("local solution or slow convergence")
    cx.case((gen, kind, G, k), formula=spec.text())
    cx.close("objective of the fit is zero", r.fun, 0, atol=2e-3)
    S, mu = m.implied_cov_mean(m.theta)
    gv = np.zeros(len(df), int) if G == 1 else np.unique(df["grp"], return_inverse=True)[1]
    on = list(m.obs_order)
    for gg in range(G):
        X = df.loc[gv == gg, on].values.astype(float)
        cx.close("implied moments are the sample moments", np.r_[S[gg].ravel(), mu[gg]], np.r_[np.cov(X.T, ddof=0).ravel(), X.mean(0)], 2e-2, 2e-2)


@workload("order invariance", quick=12, thorough=100, shards=4, timeout=500)
def invariance(cx):
    rng = cx.rng
    gen = 2 if cx.it % 2 else 1
    spec, kind, G, shared, df, v = prepare(cx)
    order = [int(i) for i in rng.permutation(len(spec.st))]
    sp = semo.Spec([spec.st[i] for i in order], [])
    if spec.table() != sp.table():
        cx.skip("label and marker depend on the order")
    d2 = df[[str(c) for c in rng.permutation(df.columns)]].iloc[rng.permutation(len(df))]
    if G > 1:                                                       # group labels in the opposite order
        lev = np.unique(df["grp"])
        d2["grp"] = d2["grp"].map({x: f"{len(lev) - i}" for i, x in enumerate(lev)})
    out = []
    orc = semo.Model(spec, df, "grp" if G > 1 else None, shared)
    for s, d in ((spec, df), (sp, d2)):
        m = build(cx, gen, s, d, G, shared)
        with np.errstate(all="ignore"):
            r = fit(cx, m, 1)
        g = np.abs(m.gradient(m.theta))
        H = m.hessian(m.theta)
        sd = np.sqrt(np.abs(np.diag(H)))
        if np.linalg.eigvalsh(H / np.outer(sd, sd)).min() < 1e-3 or (g / sd).max() > 1e-2:
            cx.skip("not identified or not converged")
        out.append((m, r))
    (a, ra), (b, rb) = out
    cx.case((gen, kind, G), formula=spec.text())
    cx.close("minimum does not depend on the order", rb.fun, ra.fun, 1e-6, 1e-4)
    Sa, ma = a.implied_cov_mean(a.theta)
    Sb, mb = b.implied_cov_mean(b.theta)
    oa, ob = list(a.obs_order), list(b.obs_order)
    P = [ob.index(x) for x in oa]
    for g in range(G):
        h = G - 1 - g
        cx.closen("implied moments do not depend on the order", np.r_[Sb[h][np.ix_(P, P)].ravel(), mb[h][P]], np.r_[Sa[g].ravel(), ma[g]], 5e-3)
    ia = {spec.canon(x): r for x, r in zip(a.theta_names, a.res.values)}
    ib = {sp.canon(x): r for x, r in zip(b.theta_names, b.res.values)}
    for key in ia:
        kb = key
        if key not in ib:
            continue
        if G > 1 and not all(shared):
            continue                                                # group-specific names follow the group order
        cx.close("estimates do not depend on the order", ib[kb][0], ia[key][0], 1e-2, .05 * abs(ia[key][1]))
        cx.close("standard errors do not depend on the order", ib[kb][1], ia[key][1], 2e-2)


@workload("matrix form fit statistics", quick=24, thorough=240, shards=4, timeout=400)
def stats(cx):
    from pystatsm.pysem.sem import SEM
    rng = cx.rng
    q = int(rng.integers(1, 4))
    sizes = [int(rng.integers(3, 5)) for _ in range(q)]
    p = sum(sizes)
    ov = [f"v{i}" for i in rng.permutation(p)]
    lv = [f"f{i}" for i in rng.permutation(q)]
    Lt = np.zeros((p, q))
    k = 0
    for j, s in enumerate(sizes):
        Lt[k:k + s, j] = np.r_[1, rng.uniform(.6, 1.3, s - 1)]
        k += s
    if q > 1 and rng.random() < .6:
        Lt[1, q - 1] = .4
    Bt = np.zeros((q, q))
    structural = q > 1 and rng.random() < .6
    if structural:
        for i in range(1, q):
            for j in range(i):
                if j == 0 or rng.random() < .7:
                    Bt[i, j] = rng.uniform(.3, .7)
    A = Lt @ np.linalg.inv(np.eye(q) - Bt)
    Pt = np.eye(q) if structural else .4 * np.ones((q, q)) + .8 * np.eye(q)
    St = A @ Pt @ A.T + np.diag(rng.uniform(.5, 1, p))
    n = int(rng.integers(150, 500))
    Xv = rng.multivariate_normal(np.zeros(p), St, n) * np.ones(p)
    X = pd.DataFrame(Xv, columns=ov)
    shuffle = rng.permutation(p)
    L = pd.DataFrame((Lt != 0) * np.where(Lt == 1, 1., .7), index=ov, columns=lv)
    B = pd.DataFrame((Bt != 0) * .1, index=lv, columns=lv)
    Ph = pd.DataFrame(np.eye(q) if structural else np.eye(q) + .05 * (1 - np.eye(q)), index=lv, columns=lv)
    Ps = pd.DataFrame(np.diag(X.var().values / 2), index=ov, columns=ov)
    m = SEM(L.iloc[shuffle].copy(), B.copy(), Ph.copy(), Ps.copy(), data=X)
    th0 = m.theta.copy()
    with np.errstate(all="ignore"):
        quiet(m.fit, use_hess=bool(rng.random() < .5))
    S = np.cov(Xv.T, ddof=0)
    # labelled estimates rebuild the implied covariance
    M = dict(L=np.where((L.values != 0), L.values, 0.), B=np.zeros((q, q)), F=np.zeros((q, q)), P=np.zeros((p, p)))
    io, il = {x: i for i, x in enumerate(ov)}, {x: i for i, x in enumerate(lv)}
    for lab, val in m.res["est"].items():
        if lab.startswith("residual cov("):
            a, b = lab[13:-1].split(", ")
            M["P"][io[a], io[b]] = M["P"][io[b], io[a]] = val
        elif lab.startswith("cov("):
            a, b = lab[4:-1].split(", ")
            M["F"][il[a], il[b]] = M["F"][il[b], il[a]] = val
        elif "<-" in lab:
            a, b = lab.split("<-")
            M["L"][io[a], il[b]] = val
        else:
            a, b = lab.split("~")
            M["B"][il[a], il[b]] = val
    A = M["L"] @ np.linalg.inv(np.eye(q) - M["B"])
    Sig = A @ M["F"] @ A.T + M["P"]
    ev = np.linalg.eigvalsh(Sig).min()
    if ev < 1e-3 or np.diag(M["P"]).min() < 1e-3 or np.diag(M["F"]).min() < 1e-3:
        cx.skip("boundary solution")
    cx.case((q, p, structural, n > 300))
    cx.closen("labelled estimates give the implied covariance", m.Sigma, Sig, 1e-7)
    t = len(m.theta)
    nf = lambda Sg: np.linalg.slogdet(Sg)[1] + np.trace(np.linalg.solve(Sg, S))
    ff = lambda x: nf(m.implied_cov(x))
    cx.ok("objective is not above its starting value", ff(m.theta) <= ff(th0) + 1e-9, "")
    if not m.opt.status in (1, 2):
        cx.skip("not converged")
    H = hess(ff, m.theta)
    if np.linalg.eigvalsh(H / np.sqrt(np.outer(np.diag(H), np.diag(H)))).min() < 1e-4:
        cx.skip("not identified")
    se = np.sqrt(np.diag(np.linalg.inv(H)) * 2 / n)
    cx.close("gradient vanishes at the estimate", nderiv(ff, m.theta)[0] * se * n / 2, 0, atol=2e-2)
    cx.close("standard errors", m.res["SE"].values, se, 1e-2)
    cx.close("t statistics", m.res["t"].values, m.theta / m.res["SE"].values, 1e-9)
    d = p * (p + 1) // 2
    df = d - t

    def fitstats(Sg, df, t):
        F = nf(Sg) - np.linalg.slogdet(S)[1] - p
        ll = ss.multivariate_normal(np.zeros(p), Sg)
        Xc = Xv - Xv.mean(0)
        chi = (n - 1) * F
        W = np.linalg.solve(Sg, S)
        R = (Sg - S)[np.tril_indices(p)]
        sc = np.sqrt(np.outer(np.diag(S), np.diag(S)))
        Rs = ((Sg - S) / sc)[np.tril_indices(p)]
        o = dict(loglikelihood=ll.logpdf(Xc).sum(), Chi2=chi, RMR=np.sqrt(np.mean(R ** 2)), SRMR=np.sqrt(np.mean(Rs ** 2)),
                 AIC=-2 * ll.logpdf(Xc).sum() + 2 * t, BIC=-2 * ll.logpdf(Xc).sum() + np.log(n) * t,
                 GFI=1 - np.trace((W - np.eye(p)) @ (W - np.eye(p))) / np.trace(W @ W))
        if df > 0:
            o.update(Chi2_pval=ss.chi2(df).sf(chi), RMSEA=np.sqrt(max(chi - df, 0) / (df * (n - 1))), AGFI=1 - d / df * (1 - o["GFI"]),
                     CN05=ss.chi2(df).isf(.05) / F + 1, CN01=ss.chi2(df).isf(.01) / F + 1, Standardized_Chi2=(chi - df) / np.sqrt(2 * df))
        return o
    for nm, got, want in (("full", m._full_fit_indices, fitstats(Sig, df, t)), ("null", m._null_fit_indices, fitstats(np.diag(np.diag(S)), d - p, p))):
        for key, w in want.items():
            cx.close(f"{key} of the {nm} model", got[key], w, 1e-5, 1e-8)
    a, b = fitstats(Sig, df, t)["Chi2"], fitstats(np.diag(np.diag(S)), d - p, p)["Chi2"]
    s = m.sumstats
    cx.close("normed fit index", s["NFI1"], 1 - a / b, 1e-6)
    if df > 0:
        cx.close("comparative fit index", s["CFI"], 1 - max(a - df, 0) / max(b - (d - p), a - df, 0), 1e-6)
        cx.close("relative and Tucker-Lewis indices", [s["Rho1"], s["Rho2"]],
                 [1 - (a / df) / (b / (d - p)), (b / (d - p) - a / df) / (b / (d - p) - 1)], 1e-5)
        cx.close("incremental fit index", s["NFI2"], (b - a) / (b - df), 1e-6)
