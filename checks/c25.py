"""C25: complex-survey designs, their linearisation variances, and the replication study."""
import contextlib
import io
import itertools
import warnings
import numpy as np
import pandas as pd
from vlib.mon import workload


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def labels(rng, k, kind):
    """k distinct labels of some type, in no particular order"""
    if kind == "int":
        return [int(v) for v in rng.permutation(k) * 3 - 2]
    if kind == "float":
        return [float(v) / 2 for v in rng.permutation(k)]
    if kind == "str":
        return [f"s{v}" for v in rng.permutation(k)]
    if kind == "bool" and k <= 2:
        return [bool(v) for v in rng.permutation(2)[:k]]
    return [f"c{v}" for v in rng.permutation(k)]


def layout(cx, singles=True):
    """a data frame with strata, clusters and weights; returns it with the per-row stratum and cluster numbers"""
    rng = cx.rng
    H = int(rng.integers(1, 6))
    sk, pk = str(rng.choice(["int", "float", "str", "cat", "bool"])), str(rng.choice(["int", "str", "cat"]))
    if sk == "bool" and H > 2:
        sk = "str"
    nested = rng.random() < .6                             # cluster labels are reused between strata
    sl = labels(rng, H, sk)
    rows = []
    K = 0
    sizes = []
    for h in range(H):
        n = int(rng.choice([1, 2, 3, 5])) if singles else int(rng.integers(2, 6))
        sizes.append(n)
    tot = sum(sizes)
    pl = labels(rng, max(sizes) if nested else tot, pk)
    for h in range(H):
        for j in range(sizes[h]):
            lab = pl[j] if nested else pl[K]
            for _ in range(int(rng.integers(1, 6))):
                rows.append((h, K, sl[h], lab))
            K += 1
    R = [rows[i] for i in rng.permutation(len(rows))]
    df = pd.DataFrame({"st": [r[2] for r in R], "cl": [r[3] for r in R]})
    if sk == "cat":
        df["st"] = pd.Categorical(df["st"], categories=[sl[i] for i in rng.permutation(H)] + ["unused"], ordered=bool(rng.random() < .5))
    if pk == "cat":
        df["cl"] = pd.Categorical(df["cl"], categories=list(pl) + ["none"])
    df["w"] = rng.choice([.5, 1., 2., 7.], size=len(df)) * rng.uniform(.8, 1.2, size=len(df))
    df["id"] = np.arange(len(df))
    df.index = rng.permutation(len(df)) + 10
    return df, np.array([r[0] for r in R]), np.array([r[1] for r in R]), sl, sizes, (sk, pk, nested)


def order_of(df, sl):
    """strata in the order their labels sort"""
    c = df["st"]
    cats = list(c.cat.categories) if isinstance(c.dtype, pd.CategoricalDtype) else sorted(set(sl))
    return [sl.index(v) for v in cats if v in sl]


def meat(U, hs, ks, fpc, policy):
    """between-cluster linearisation covariance by loops over the labels"""
    groups = {}
    for h in np.unique(hs):
        groups[int(h)] = [int(k) for k in np.unique(ks[hs == h])]
    if policy == "aggregate":
        lone = [h for h, v in groups.items() if len(v) == 1]
        if lone:
            groups["pooled"] = [groups.pop(h)[0] for h in lone]
    out = np.zeros((U.shape[1],) * 2)
    for h, v in groups.items():
        n = len(v)
        if n < 2:
            continue
        T = np.array([U[ks == k].sum(0) for k in v])
        D = T - T.mean(0)
        out += (1 - fpc.get(h, 0.)) * n / (n - 1) * sum(np.outer(d, d) for d in D)
    return out, groups


@workload("linearisation", quick=150, thorough=6000, timeout=200)
def w_meat(cx):
    from pystatsm.utilities import complexdesign as cd
    rng = cx.rng
    df, hs, ks, sl, sizes, kinds = layout(cx)
    policy = str(rng.choice(["aggregate", "none", "default", "error"]))
    lone = [h for h, n in enumerate(sizes) if n == 1]
    cx.case(kinds + (policy, min(len(lone), 2)), sizes=sizes)
    kw = {} if policy == "default" else dict(singleton=policy)
    from pystatsm.utilities.complexdesign.sample_design import SampleDesign, design_sandwich
    keep = df.copy()
    if policy == "error" and lone:
        cx.raises("singleton strata are refused when asked", ValueError, lambda: SampleDesign(df, "st", "cl", "w", **kw))
        return
    pol = "aggregate" if policy == "default" else policy
    # finite population corrections, in the order of the design's strata
    order = [h for h in order_of(df, sl) if not (pol == "aggregate" and sizes[h] == 1)] + (["pooled"] if pol == "aggregate" and lone else [])
    fpc = None
    fd = {}
    if rng.random() < .5:
        f = rng.uniform(0, .9, size=len(order))
        fd = dict(zip(order, f))
        fpc = f if rng.random() < .7 else f.tolist()
    d = SampleDesign(df, "st", "cl", "w", fpc=fpc, **kw)
    p = int(rng.integers(1, 4))
    U = rng.normal(size=(len(df), p)) * rng.choice([1., 100.], size=p)
    ids = d.df["id"].values
    want, groups = meat(U, hs, ks, fd, pol)
    cx.ok("every row is kept once", sorted(ids) == list(range(len(df))))
    cx.ok("counts of rows, strata and clusters", (d.n, d.n_str, d.n_grp) == (len(df), len(groups), sum(sizes)), (d.n, d.n_str, d.n_grp, len(groups), sum(sizes)))
    cx.close("weights follow their rows", d.w, df["w"].values[ids], 0, 0)
    V = d.meat(U[ids])
    cx.closen("linearisation covariance", V, want, 1e-10, 1e-12)
    cx.close("symmetric", V, V.T, 1e-12, 1e-12 * np.abs(V).max())
    cx.ok("positive semi-definite", np.linalg.eigvalsh(V).min() >= -1e-9 * max(1, np.abs(V).max()))
    V2 = d.meat(U[ids])
    cx.close("asking again gives the same", V2, V, 0, 0)
    cx.ok("the caller's data frame stays", keep.equals(df) and list(keep.columns) == list(df.columns) and (keep.dtypes == df.dtypes).all())
    # order of the rows
    pm = rng.permutation(len(df))
    d2 = SampleDesign(df.iloc[pm], "st", "cl", "w", fpc=fpc, **kw)
    cx.closen("order of the rows does not matter", d2.meat(U[d2.df["id"].values]), want, 1e-10, 1e-12)
    # labels
    new = labels(rng, len(sl), "int")
    d3f = df.assign(st=np.array(new)[hs], cl=np.array(labels(rng, int(ks.max()) + 1, "str"))[ks])
    o3 = [h for h in np.argsort(new) if not (pol == "aggregate" and sizes[h] == 1)] + (["pooled"] if pol == "aggregate" and lone else [])
    f3 = None if fpc is None else np.array([fd[h] for h in o3])
    d3 = SampleDesign(d3f, "st", "cl", "w", fpc=f3, **kw)
    cx.closen("labels do not matter", d3.meat(U[d3.df["id"].values]), want, 1e-10, 1e-12)
    # additive over strata: doubling the frame as new strata doubles the covariance
    if fpc is None and not lone:
        a = df.assign(st=hs)
        b = df.assign(st=hs + 100, id=df["id"].values + len(df))
        d4 = SampleDesign(pd.concat([a, b]), "st", "cl", "w", **kw)
        cx.closen("strata add up", d4.meat(np.r_[U, U][d4.df["id"].values]), 2 * want, 1e-10, 1e-12)
    # missing strata or clusters
    d5 = SampleDesign(df, weight="w")
    C = U - U.mean(0)
    n = len(df)
    if n > 1:
        cx.closen("no strata, no clusters: the usual robust form", d5.meat(U[d5.df["id"].values]), n / (n - 1) * C.T @ C, 1e-10, 1e-12)
    d6 = SampleDesign(df, psuind="cl", weight="w") if not kinds[2] else None
    if d6 is not None and sum(sizes) > 1:
        w6, _ = meat(U, np.zeros(n, int), ks, {}, "none")
        cx.closen("clusters without strata", d6.meat(U[d6.df["id"].values]), w6, 1e-10, 1e-12)
    d7 = SampleDesign(df, strata="st", singleton="none")
    w7, _ = meat(U, hs, np.arange(n), {}, "none")
    cx.closen("strata without clusters", d7.meat(U[d7.df["id"].values]), w7, 1e-10, 1e-12)
    cx.close("no weights are unit weights", d7.w, 1, 0, 0)
    # domains
    mask = rng.random(n) < .6
    s = d.subset(mask[ids])
    m2 = rng.random(n) < .6
    s2 = s.subset(m2[ids])
    cx.close("domain weights", s.w, np.where(mask, df["w"].values, 0)[ids], 0, 0)
    cx.close("domains of domains intersect", s2.w, np.where(mask & m2, df["w"].values, 0)[ids], 0, 0)
    cx.close("a domain leaves the design alone", d.w, df["w"].values[ids], 0, 0)
    cx.ok("a domain keeps the whole design", (s.n, s.n_str, s.n_grp) == (d.n, d.n_str, d.n_grp))
    cx.closen("a domain keeps the covariance rule", s.meat(U[ids]), want, 1e-10, 1e-12)
    A = rng.normal(size=(p, p))
    A = A + A.T
    cx.closen("sandwich", design_sandwich(A, U[ids], d), A @ want @ A, 1e-10, 1e-10)
    cx.raises("scores of the wrong length are refused", ValueError, lambda: d.meat(U[:-1]))
    cx.raises("a mask of the wrong length is refused", ValueError, lambda: d.subset(mask[:-1]))
    cx.raises("corrections of the wrong length are refused", ValueError, lambda: SampleDesign(df, "st", "cl", "w", fpc=np.zeros(len(order) + 1), **kw))


@workload("all samples", quick=20, thorough=400, timeout=300)
def w_enum(cx):
    """over every possible sample the variance estimate averages to the variance of the estimated total"""
    from pystatsm.utilities.complexdesign.sample_design import SampleDesign
    rng = cx.rng
    H = int(rng.integers(1, 3))
    N = [int(rng.integers(3, 6)) for _ in range(H)]
    n = [int(rng.integers(2, k)) for k in N]
    size = int(rng.choice([1, 2]))
    wor = rng.random() < .7
    Y = [[rng.normal(size=size) * 3 + h for _ in range(N[h])] for h in range(H)]
    cx.case((H, tuple(N), tuple(n), wor, size))
    picks = [list(itertools.combinations(range(N[h]), n[h])) if wor else list(itertools.product(range(N[h]), repeat=n[h])) for h in range(H)]
    tot, var = [], []
    allp = list(itertools.product(*picks))
    if len(allp) > 400:
        picks = [p if h == 0 else p[:1] for h, p in enumerate(picks)]
        cx.skip("too many samples")
    for s in allp:
        rows = []
        for h in range(H):
            for j, k in enumerate(s[h]):
                for y in Y[h][k]:
                    rows.append((f"h{h}", j, N[h] / n[h], y))
        df = pd.DataFrame(rows, columns=["st", "cl", "w", "y"])
        d = SampleDesign(df, "st", "cl", "w", fpc=np.array([n[h] / N[h] for h in range(H)]) if wor else None)
        u = (d.w * d.df["y"].values)[:, None]
        tot.append(u.sum())
        var.append(d.meat(u)[0, 0])
    cx.note("samples", len(allp))
    T = sum(sum(y.sum() for y in Y[h]) for h in range(H))
    cx.close("estimated total is unbiased", np.mean(tot), T, 1e-10, 1e-9)
    cx.close("variance estimate is unbiased", np.mean(var), np.var(tot), 1e-9, 1e-9)


@workload("estimators", quick=40, thorough=1500, timeout=300)
def w_est(cx):
    from pystatsm.utilities.complexdesign.sample_design import SampleDesign, design_sandwich
    from pystatsm.utilities.complexdesign.replication import WLSAdapter, GLMAdapter
    from pystatsm.pyglm2 import families
    rng = cx.rng
    df, hs, ks, sl, sizes, kinds = layout(cx, singles=rng.random() < .3)
    if len(df) < 25:
        k = 3
        df = pd.concat([df] * k, ignore_index=True)
        hs, ks = np.tile(hs, k), np.tile(ks, k)
        df["id"] = np.arange(len(df))
    n = len(df)
    if n < 25 or sum(sizes) < 4:
        cx.skip("small")
    fam = str(rng.choice(["gaussian", "binomial", "poisson", "mean"]))
    df["x"] = rng.normal(size=n)
    df["z"] = rng.choice(["a", "b"], size=n)
    eff = rng.normal(size=ks.max() + 1)[ks] * .3
    eta = .3 + .5 * df["x"].values + eff
    y = eta + rng.normal(size=n) if fam in ("gaussian", "mean") else (rng.random(n) < 1 / (1 + np.exp(-eta))) * 1. if fam == "binomial" else rng.poisson(np.exp(eta)) * 1.
    df["y"] = y
    dom = rng.random() < .4
    mask = rng.random(n) < .75 if dom else np.ones(n, bool)
    fo = "y ~ 1" if fam == "mean" else "y ~ x + z"
    X = np.ones((n, 1)) if fam == "mean" else np.c_[np.ones(n), df["z"].values == "b", df["x"].values]
    if np.linalg.cond(X[mask]) > 100 or (fam == "binomial" and (y[mask].mean() < .15 or y[mask].mean() > .85)):
        cx.skip("degenerate sample")
    cx.case((fam, dom, len(sizes)), n=n)
    w = np.where(mask, df["w"].values, 0.)
    d = SampleDesign(df, "st", "cl", "w")
    ids = d.df["id"].values
    if dom:
        d = d.subset(mask[ids])
    # weighted estimating equations by Newton's method
    mu_ = {"gaussian": lambda e: e, "mean": lambda e: e, "binomial": lambda e: 1 / (1 + np.exp(-e)), "poisson": np.exp}[fam]
    dm_ = {"gaussian": lambda m: np.ones_like(m), "mean": lambda m: np.ones_like(m), "binomial": lambda m: m * (1 - m), "poisson": lambda m: m}[fam]
    b = np.zeros(X.shape[1])
    if fam == "poisson":
        b[0] = np.log(y[mask].mean() + .1)
    for _ in range(60):
        m = mu_(X @ b)
        A = (X * (w * dm_(m))[:, None]).T @ X
        if not np.linalg.cond(A) < 1e10:
            cx.skip("separated")
        st = np.linalg.solve(A, X.T @ (w * (y - m)))
        b = b + st * min(1, 2 / np.abs(st).max() if np.abs(st).max() > 0 else 1)
    if np.abs(b).max() > 6:
        cx.skip("separated")
    m = mu_(X @ b)
    B = np.linalg.inv((X * (w * dm_(m))[:, None]).T @ X)
    U = X * (w * (y - m))[:, None]
    M, _ = meat(U, hs, ks, {}, "aggregate")
    V = B @ M @ B
    fits = []
    if fam in ("gaussian", "mean"):
        fits.append(("weighted least squares", WLSAdapter(fo)))
    if fam == "gaussian":
        fits.append(("Gaussian GLM", GLMAdapter(fo)))
    if fam == "binomial":
        fits.append(("binomial GLM", GLMAdapter(fo, families.Binomial)))
    if fam == "poisson":
        fits.append(("Poisson GLM", GLMAdapter(fo, families.Poisson)))
    ret = {}
    for nm, ad in fits:
        r = quiet(ad.fit, d)
        k = X.shape[1]
        # columns by name are not part of the result: order of patsy is intercept, z, x
        cx.close(f"{nm}: weighted estimates", np.asarray(r.params)[:k], b, 1e-4, 1e-5)
        Vg = design_sandwich(r.bread, r.score_i, d)
        cx.closen(f"{nm}: design-based covariance", Vg[:k, :k], V, 1e-3, 1e-10)
        ret[nm] = Vg
        if nm == "weighted least squares":
            cx.closen(f"{nm}: scores", r.score_i, U[ids], 1e-8, 1e-8)
            d8 = SampleDesign(df.assign(w=df["w"] * 17.), "st", "cl", "w")
            d8 = d8.subset(mask[d8.df["id"].values]) if dom else d8
            r8 = ad.fit(d8)
            cx.closen(f"{nm}: scale of the weights does not matter", design_sandwich(r8.bread, r8.score_i, d8), Vg, 1e-9, 1e-14)
    if fam == "mean":
        yb = (w @ y) / w.sum()
        M1, _ = meat((w * (y - yb) / w.sum())[:, None], hs, ks, {}, "aggregate")
        cx.close("linearised variance of the weighted mean", ret["weighted least squares"][0, 0], M1[0, 0], 1e-9, 1e-14)


@workload("replication study", quick=24, thorough=600, timeout=300)
def w_rep(cx):
    import scipy.stats as ss
    from pystatsm.utilities.complexdesign import population as pop, replication as rp
    from pystatsm.utilities.complexdesign.sample_design import SampleDesign, design_sandwich
    rng = cx.rng
    H, P, K = int(rng.integers(1, 4)), int(rng.integers(2, 5)), int(rng.integers(2, 6))
    nv = int(rng.integers(1, 4))
    xs = [f"x{i}" for i in range(nv)]
    kind = str(rng.choice(["full", "intercept", "no intercept", "interaction"]))
    rhs = {"full": "1 + " + " + ".join(xs), "intercept": "1", "no intercept": "0 + " + " + ".join(xs), "interaction": xs[0] + " + I(" + xs[-1] + "**2)"}[kind]
    q = {"full": nv + 1, "intercept": 1, "no intercept": nv, "interaction": 3}[kind]
    beta = rng.normal(size=q)
    intra = float(rng.choice([0., .5]))
    binary = rng.random() < .3
    wf = None if rng.random() < .5 else (lambda d: 1. + (d[xs[0]] > 0) * 2.)
    kw = dict(intra_cluster_var=intra, weight_fn=wf)
    L = rng.normal(size=(nv, nv))
    if rng.random() < .5:
        kw.update(x_cov=L @ L.T + np.eye(nv), x_mean=rng.normal(size=nv))
    cx.case((kind, binary, intra > 0, wf is None))
    args = ("y", xs, rhs, beta, H, P, K)
    mk = (lambda **k: pop.BinomialPopulation(*args, **kw, **k)) if binary else (lambda **k: pop.LinearPopulation(*args, **kw, **k))
    Q = mk()
    d = Q.draw(np.random.default_rng(3))
    n = H * P * K
    cx.ok("size of the drawn sample", len(d) == n)
    X = {"full": lambda: np.c_[np.ones(n), d[xs].values], "intercept": lambda: np.ones((n, 1)), "no intercept": lambda: d[xs].values,
         "interaction": lambda: np.c_[np.ones(n), d[xs[0]], d[xs[-1]] ** 2]}[kind]()
    cx.ok("clusters are nested in strata and balanced", (d.groupby("psu")["strata"].nunique() == 1).all() and (d.groupby("psu").size() == K).all()
          and (d.groupby("strata")["psu"].nunique() == P).all() and d["strata"].nunique() == H)
    cx.close("weights are those of the rule", d["w"].values, np.ones(n) if wf is None else wf(d).values, 0, 0)
    cx.close("true parameters are those stated", Q.theta_true, beta, 0, 0)
    d2 = mk(rng=np.random.default_rng(3)).draw()
    cx.ok("the same seed draws the same sample", d.equals(d2))
    if binary:
        cx.ok("binary responses", set(np.unique(d["y"])) <= {0., 1.})
    else:
        e = pop.LinearPopulation(*args, **kw, resid_var=0.).draw(np.random.default_rng(3))
        X2 = {"full": lambda: np.c_[np.ones(n), e[xs].values], "intercept": lambda: np.ones((n, 1)), "no intercept": lambda: e[xs].values,
              "interaction": lambda: np.c_[np.ones(n), e[xs[0]], e[xs[-1]] ** 2]}[kind]()
        r = e["y"].values - X2 @ beta
        g = pd.Series(r).groupby(e["psu"].values)
        cx.ok("response is the predictor plus one effect per cluster", g.agg(np.ptp).max() < 1e-10 and (intra > 0 or np.abs(r).max() < 1e-10))
        big = pop.LinearPopulation("y", xs, rhs, beta, 20, 50, 4, resid_var=2., **kw).draw(np.random.default_rng(int(rng.integers(1e6))))
        N = len(big)
        X3 = {"full": lambda: np.c_[np.ones(N), big[xs].values], "intercept": lambda: np.ones((N, 1)), "no intercept": lambda: big[xs].values,
              "interaction": lambda: np.c_[np.ones(N), big[xs[0]], big[xs[-1]] ** 2]}[kind]()
        r = big["y"].values - X3 @ beta
        wv = pd.Series(r).groupby(big["psu"].values).var().mean()
        bv = pd.Series(r).groupby(big["psu"].values).mean().var()
        cx.ok("residual variance", abs(wv / 2 - 1) < 6 * np.sqrt(2 / 3000), wv)
        cx.ok("between-cluster variance", abs(bv / (intra + .5) - 1) < 6 * np.sqrt(2 / 999), bv)
        cx.ok("covariates follow the stated law", np.abs(big[xs].values.mean(0) - Q.x_mean).max() < 7 * np.sqrt(np.diag(Q.x_cov).max() / N)
              and np.abs(np.cov(big[xs].values.T).reshape(nv, nv) - Q.x_cov).max() < 9 * np.diag(Q.x_cov).max() / np.sqrt(N))
    cx.raises("coefficients of the wrong length are refused", ValueError, lambda: pop.LinearPopulation("y", xs, rhs, np.r_[beta, 1.], H, P, K))
    # the study
    if n < q + 4 or binary:
        return
    fac = lambda f: SampleDesign(f, "strata", "psu", "w")
    ad = rp.WLSAdapter(Q.formula)
    R = int(rng.integers(3, 8))
    res = quiet(rp.replicate, Q, fac, ad, R, np.random.default_rng(11), bool(rng.random() < .5))
    g = np.random.default_rng(11)
    Pm, Vm = [], []
    for _ in range(R):
        f = Q.draw(g)
        Xf = {"full": lambda: np.c_[np.ones(n), f[xs].values], "intercept": lambda: np.ones((n, 1)), "no intercept": lambda: f[xs].values,
              "interaction": lambda: np.c_[np.ones(n), f[xs[0]], f[xs[-1]] ** 2]}[kind]()
        w = f["w"].values
        B = np.linalg.inv(Xf.T @ (w[:, None] * Xf))
        b = B @ Xf.T @ (w * f["y"].values)
        M, _ = meat(Xf * (w * (f["y"].values - Xf @ b))[:, None], f["strata"].values, f["psu"].values, {}, "aggregate")
        Pm.append(b)
        Vm.append(B @ M @ B)
    Pm, Vm = np.array(Pm), np.array(Vm)
    cx.closen("study: estimates of every replicate", res.params, Pm, 1e-8, 1e-10)
    cx.closen("study: covariances of every replicate", res.Vs, Vm, 1e-7, 1e-12)
    al = float(rng.choice([.05, .2, .5]))
    S = res.summary(alpha=al)
    z = (Pm - beta) / np.sqrt(np.array([np.diag(v) for v in Vm]))
    want = dict(true=beta, mean=Pm.mean(0), bias=Pm.mean(0) - beta, se_emp=Pm.std(0, ddof=1), se_ana=np.sqrt(np.diag(Vm.mean(0)).reshape(q)),
                ratio=Pm.std(0, ddof=1) / np.sqrt(np.diag(Vm.mean(0))), coverage=(np.abs(z) < ss.norm.ppf(1 - al / 2)).mean(0))
    for k, v in want.items():
        cx.close(f"study: {k}", S[k].values, v, 1e-6, 1e-9)
    cx.ok("study: one row per parameter", len(S) == q and list(S.index) == list(Q.parameter_names))
    cx.closen("study: empirical covariance", res.empirical_cov(), np.atleast_2d(np.cov(Pm.T)), 1e-7, 1e-10)
