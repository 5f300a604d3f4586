"""C20: implied moments, objective and derivatives of structural equation models."""
import numpy as np
import pandas as pd
from vlib.mon import workload, nderiv
from vlib import semo


def data(cx, spec, G, n=None):
    """correlated data with the model's observed variables in shuffled column order, plus unused columns"""
    rng = cx.rng
    cols = [str(v) for v in rng.permutation(spec.obs)]
    fr = []
    for g in range(G):
        k = int(rng.integers(40, 90)) if n is None else n
        W = rng.normal(size=(len(cols), 3)) * .6
        X = rng.normal(size=(k, 3)) @ W.T + rng.normal(size=(k, len(cols))) * rng.uniform(.7, 1.4, len(cols)) + rng.normal(size=len(cols))
        d = pd.DataFrame(X, columns=cols)
        if G > 1:
            d["grp"] = g
        fr.append(d)
    df = pd.concat(fr, ignore_index=True)
    if G > 1:
        lev = [np.arange(G), np.arange(G) * 3 + 1, np.array([f"s{i}" for i in range(G)])][int(rng.integers(3))]
        df["grp"] = lev[df["grp"].values]
        df = df.iloc[rng.permutation(len(df))]                         # groups interleaved
        if rng.random() < .5:
            df = df.reset_index(drop=True)
    return df


def build(cx, gen, spec, df, G, shared, style=0):
    txt = spec.text(style=style)
    if gen == 2:
        from pystatsm.pysem2.sem import SEM
        kw = dict(shared=list(shared))
        if G > 1:
            kw["group_col"] = "grp"
        return SEM(txt, df.copy(), model_spec_kws=kw)
    from pystatsm.pysem.sem2 import SEM
    return SEM(txt, df.copy(), group_col="grp" if G > 1 else None, group_kws=dict(shared=list(shared)))


def setup(cx, gen, means=True):
    rng = cx.rng
    spec, kind = semo.make(rng, means=means)
    G = int(rng.choice([1, 1, 2, 3]))
    shared = [True] * 6
    if G > 1 and rng.random() < .75:
        shared = [bool(rng.random() < .5) for _ in range(6)]
        if rng.random() < .3:
            shared = [True, False, True, False, False, False]
    df = data(cx, spec, G)
    cx.case((kind, G, tuple(shared), len(spec.st)), formula=spec.text())
    m = build(cx, gen, spec, df, G, shared)
    orc = semo.Model(spec, df, "grp" if G > 1 else None, shared)
    names = list(m.theta_names)
    got = [spec.canon(v) for v in names]
    cx.ok("the free parameters are those of the model", set(got) == set(orc.exp) and len(set(got)) == len(got),
          dict(missing=[str(v) for v in set(orc.exp) - set(got)], extra=[str(v) for v in set(got) - set(orc.exp)]))
    v = semo.draw(rng, spec, G, shared)
    for _ in range(40):
        th = np.array([v[c] for c in got])
        if all(np.linalg.eigvalsh(S).min() > .05 for S, _ in orc.moments(names, th)):
            break
        v = semo.draw(rng, spec, G, shared)
    else:
        cx.skip("no admissible parameter value drawn")
    return m, orc, spec, names, th, G, df


def perm(m, orc):
    o = list(sorted(m.obs_order, key=lambda k: m.obs_order[k]))
    return [orc.obs.index(v) for v in o]


def gnum(f, x):
    h = 1e-5
    return np.array([(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(len(x))])


@workload("moments and objective", quick=40, thorough=400, shards=4, timeout=300)
def objective(cx):
    gen = 2 if cx.it % 2 else 1
    m, orc, spec, names, th, G, df = setup(cx, gen)
    P = perm(m, orc)
    t0 = th.copy()
    Sg, mu = m.implied_cov_mean(th)
    ref = orc.moments(names, th)
    for g in range(G):
        S0, m0 = ref[g]
        cx.closen("implied covariance of the model equations", Sg[g], S0[np.ix_(P, P)], 1e-9)
        cx.closen("implied mean of the model equations", mu[g], m0[P], 1e-9, 1e-10)
    v = m.implied_sample_stats(th)
    for g in range(G):
        S0 = ref[g][0][np.ix_(P, P)]
        iu = [(i, j) for j in range(len(P)) for i in range(j, len(P))]
        cx.closen("stacked moments", v[g], np.r_[[S0[i, j] for i, j in iu], ref[g][1][P]], 1e-9)
    f = m.fit_func if gen == 2 else m.func
    fv = f(th)
    cx.close("objective is the normal-theory discrepancy over groups and means", fv, orc.f(names, th), 1e-8, 1e-8)
    cx.close("per-group objectives add up to it", np.sum(f(th, per_group=True)), fv, 1e-9, 1e-9)
    g0 = gnum(lambda t: orc.f(names, t), th)
    sc = np.abs(g0).max() + 1e-3 * abs(fv)
    for me in (0, 1):
        cx.close("gradient of the objective" + (" (alternative accumulation)" if me else ""), m.gradient(th, method=me), g0, 1e-5, 1e-6 * sc)
    cx.close("per-group gradients add up to it", np.sum(m.gradient(th, per_group=True), axis=0), g0, 1e-5, 1e-6 * sc)
    ll = orc.nll_obs(names, th)
    cx.close("negative loglikelihood of the sample", m.loglike(th), sum(a.sum() for a in ll), 1e-9)
    lg = m.loglike(th, level="group")
    cx.close("negative loglikelihood by group", lg, [a.sum() for a in ll], 1e-9)
    lo = m.loglike(th, level="observation")
    lev = [slice(None)] if G == 1 else [np.flatnonzero(df["grp"].values == l) for l in sorted(df["grp"].unique())]
    for g in range(G):
        cx.close("negative loglikelihood of each observation in data order", lo[lev[g]], ll[g], 1e-9, 1e-9)
    go = m.gradient_obs(th)
    ref_o = np.zeros((len(df), len(th)))
    h = 1e-5
    for k in range(len(th)):
        e = np.eye(len(th))[k] * h
        a, b = orc.nll_obs(names, th + e), orc.nll_obs(names, th - e)
        for g in range(G):
            ref_o[lev[g], k] = (a[g] - b[g]) / (2 * h)
    cx.close("scores of each observation", go, ref_o, 1e-5, 1e-6 * np.abs(ref_o).max())
    cx.ok("parameters left untouched", np.array_equal(th, t0))


@workload("hessian and moment derivatives", quick=30, thorough=300, shards=4, timeout=300)
def hessian(cx):
    gen = 2 if cx.it % 2 else 1
    m, orc, spec, names, th, G, df = setup(cx, gen)
    P = perm(m, orc)
    H = m.hessian(th)
    Hn = gnum(m.gradient, th)
    g0 = gnum(lambda t: orc.f(names, t), th)
    cx.close("gradient of the objective", m.gradient(th), g0, 1e-5, 1e-6 * (np.abs(g0).max() + 1))
    cx.close("Hessian is the derivative of the gradient", H, Hn, 1e-5, 1e-6 * np.abs(Hn).max())
    cx.close("per-group Hessians add up to it", np.sum(m.hessian(th, per_group=True), axis=0), H, 1e-8, 1e-8 * np.abs(H).max())
    # derivatives of the stacked moments with respect to each group's own free entries
    free = m.transform_theta_to_free(th)
    D, D2 = m.dsigma_mu(th), m.d2sigma_mu(th)
    p = len(P)
    for g in range(G):
        gf = np.asarray(m.transform_free_to_group_free(free, g), float)

        def st(x):
            par = m.group_free_to_par(x, g)
            mats = m.par_to_model_mats(par) if gen == 2 else m.par_to_model_mats(par, g)
            L, B, F, Ps, a, b = mats
            IB = np.linalg.inv(np.eye(len(B)) - B)
            S = L @ IB @ F @ IB.T @ L.T + Ps
            mu = (a + (L @ IB @ b.T).T).ravel()
            return np.r_[[S[i, j] for j in range(p) for i in range(j, p)], mu]
        J = gnum(st, gf).T
        cx.close("derivative of the moments", D[g], J, 1e-6, 1e-7 * (1 + np.abs(J).max()))
        if len(gf) <= 24:
            h = 3e-4
            n = len(gf)
            I = np.eye(n) * h
            HH = np.zeros(D2[g].shape)
            for i in range(n):
                for j in range(i, n):
                    HH[:, i, j] = (st(gf + I[i] + I[j]) - st(gf + I[i] - I[j]) - st(gf - I[i] + I[j]) + st(gf - I[i] - I[j])) / (4 * h * h)
                    HH[:, j, i] = HH[:, i, j]
            cx.close("second derivative of the moments", D2[g], HH, 1e-4, 1e-5 * (1 + np.abs(HH).max()))
    # the reductions between parameter vectors are the transposed Jacobians of the expansions
    w = cx.rng.normal(size=len(free))
    cx.close("reduction to free parameters is the transposed expansion", np.asarray(m.jac_free_to_theta(w)).ravel(),
             gnum(lambda t: w @ m.transform_theta_to_free(t), th), 1e-6, 1e-7)


@workload("matrix form", quick=40, thorough=400, shards=4, timeout=300)
def matrix_form(cx):
    """models given as patterns of nonzero entries of the four matrices"""
    from pystatsm.pysem.sem import SEM
    rng = cx.rng
    q = int(rng.integers(1, 4))
    sizes = [int(rng.integers(2, 4)) for _ in range(q)]
    if q == 1:
        sizes = [int(rng.integers(3, 5))]
    p = sum(sizes)
    ov = [f"v{i}" for i in rng.permutation(p)]
    lv = [f"f{i}" for i in range(q)]
    L = pd.DataFrame(np.zeros((p, q)), index=ov, columns=lv)
    k = 0
    for j, s in enumerate(sizes):
        L.iloc[k:k + s, j] = 1.0
        k += s
    if q > 1 and rng.random() < .5:
        L.iloc[0, q - 1] = .3                                       # cross loading
    B = pd.DataFrame(np.zeros((q, q)), index=lv, columns=lv)
    structural = q > 1 and rng.random() < .6
    if structural:
        for i in range(1, q):
            for j in range(i):
                if rng.random() < .7:
                    B.iloc[i, j] = .2
    Ph = pd.DataFrame(np.eye(q), index=lv, columns=lv)
    if not structural:
        for i in range(q):
            for j in range(i):
                if rng.random() < .7:
                    Ph.iloc[i, j] = Ph.iloc[j, i] = .1
    Ps = pd.DataFrame(np.eye(p), index=ov, columns=ov)
    if rng.random() < .5:
        a, b = rng.choice(p, 2, replace=False)
        Ps.iloc[a, b] = Ps.iloc[b, a] = .05
    L = L.iloc[rng.permutation(p)]                                  # rows in another order than the data
    X = pd.DataFrame(rng.normal(size=(80, p)) @ (np.eye(p) + .4 * rng.normal(size=(p, p))), columns=ov)
    Psd = Ps.copy()
    m = SEM(L.copy(), B.copy(), Ph.copy(), Ps.copy(), data=X)
    cx.case((q, p, structural, int((Ps.values != 0).sum())))
    S = np.cov(X.values.T, ddof=0)
    # free entries by position: everything nonzero but one marker loading per latent variable
    L0 = L.loc[ov].values
    Lf = L0 != 0
    for j in range(q):
        Lf[np.argmax(L0[:, j]), j] = False
    tl = lambda M: [(i, j) for j in range(M.shape[0]) for i in range(j, M.shape[0])]
    pos = [("L", i, j) for j in range(q) for i in range(p) if Lf[i, j]] + \
          [("B", i, j) for j in range(q) for i in range(q) if B.values[i, j] != 0] + \
          [("F", i, j) for i, j in tl(Ph.values) if Ph.values[i, j] != 0] + [("P", i, j) for i, j in tl(Psd.values) if Psd.values[i, j] != 0]
    if not cx.ok("number of free parameters", len(pos) == len(m.theta), (len(pos), len(m.theta))):
        return
    st = dict(L=L0, B=B.values, F=Ph.values, P=Psd.values)
    cx.close("starting values are the given entries", m.theta, [st[a][i, j] for a, i, j in pos], 1e-12)
    th = np.array([rng.uniform(.4, 1.2) if a == "L" else rng.uniform(-.4, .4) if a == "B" else
                   (rng.uniform(.7, 1.5) if i == j else rng.uniform(-.2, .2)) for a, i, j in pos])

    def sig(t):
        M = {a: v.astype(float).copy() for a, v in st.items()}
        for v, (a, i, j) in zip(t, pos):
            M[a][i, j] = v
            if a in "FP":
                M[a][j, i] = v
        A = M["L"] @ np.linalg.inv(np.eye(q) - M["B"])
        return A @ M["F"] @ A.T + M["P"]
    f = lambda t: np.linalg.slogdet(sig(t))[1] + np.trace(np.linalg.solve(sig(t), S))
    if np.linalg.eigvalsh(sig(th)).min() < .05:
        cx.skip("inadmissible draw")
    cx.closen("implied covariance of the model equations", m.implied_cov(th), sig(th), 1e-9)
    cx.close("objective is the normal-theory discrepancy", m.loglike(th), f(th), 1e-9)
    g = gnum(f, th)
    cx.close("gradient of the objective", m.gradient(th), g, 1e-5, 1e-6 * (1 + np.abs(g).max()))
    H = gnum(m.gradient, th)
    cx.close("Hessian is the derivative of the gradient", m.hessian(th), H, 1e-5, 1e-6 * (1 + np.abs(H).max()))
    D = gnum(lambda t: np.array([sig(t)[i, j] for i, j in tl(S)]), th).T
    cx.close("derivative of the moments", m.dsigma(th)[:, m.theta_indices], D, 1e-6, 1e-7 * (1 + np.abs(D).max()))
