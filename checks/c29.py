"""C29: random generators and model simulators."""
import numpy as np
import pandas as pd
import scipy as sp
import scipy.stats
from vlib import mon
from vlib.mon import workload

ST = sp.stats
ALPHA = 1e-9


def seed_jit(cx):
    """The jitted samplers have a generator of their own; pin it so a run repeats."""
    from pystatsm.utilities import random as rn
    rn.exact_rmvnorm(np.eye(2), 5, seed=int(cx.rng.integers(2**31 - 1)))


def ks(cx, monitor, x, law):
    x = np.asarray(x, float).ravel()
    cx.ok(monitor, np.all(np.isfinite(x)), dict(n=x.size))
    p = ST.kstest(x, law.cdf if hasattr(law, "cdf") else law).pvalue
    cx.ok(monitor, p > ALPHA, dict(p=float(p), n=x.size, mean=float(x.mean()), sd=float(x.std())))


def ks2(cx, monitor, x, y):
    p = ST.ks_2samp(np.ravel(x), np.ravel(y), method="asymp").pvalue
    cx.ok(monitor, p > ALPHA, dict(p=float(p), means=[float(np.mean(x)), float(np.mean(y))]))


def valid_corr(cx, monitor, R, tol=1e-10):
    R = np.asarray(R)
    cx.ok(monitor + " square", R.ndim == 2 and R.shape[0] == R.shape[1], R.shape)
    cx.close(monitor + " diagonal", np.diag(R), np.ones(len(R)), 1e-12, 1e-12)
    cx.close(monitor + " symmetric", R, R.T, 1e-12, 1e-12)
    cx.ok(monitor + " positive definite", np.linalg.eigvalsh(R).min() > -tol, np.linalg.eigvalsh(R).min())


def rand_corr(rng, d, eta=None):
    A = rng.normal(size=(d, d + int(rng.integers(1, 5))))
    S = A @ A.T
    s = np.sqrt(np.diag(S))
    return S / s / s[:, None]


def lkj_logdet(rng, d, eta, n):
    """log det of an LKJ matrix as a sum over the partial correlations of a vine."""
    out = np.zeros(n)
    for k in range(d - 1):
        b = eta + (d - 2 - k) / 2.0
        for _ in range(d - 1 - k):
            u = rng.beta(b, b, size=n)
            out += np.log(np.maximum(4 * u * (1 - u), 1e-300))
    return out


@workload("correlation draws", quick=24, thorough=120, shards=4, timeout=600)
def w_corr(cx):
    from pystatsm.utilities import random as rn
    rng = cx.rng
    seed_jit(cx)
    kind = ["vine", "onion", "lkj"][cx.it % 3]
    d = int(rng.integers(2, 8))
    eta = float(rng.choice([0.5, 1.0, 2.0, 5.0, 20.0])) if kind == "lkj" else float(rng.choice([1.0, 2.0, 5.0, 20.0]))
    if cx.it == 0:
        d, eta = 7, 1.0
    n = 600
    cx.case((kind, d, eta))
    if kind == "vine":
        Rs = np.array([rn.vine_corr(d, eta) for _ in range(n)])
        s = int(rng.integers(2**31 - 1))
        cx.ok("vine: same seed same matrix", np.array_equal(rn.vine_corr(d, eta, seed=s), rn.vine_corr(d, eta, seed=s)))
        cx.ok("vine: seeds differ", not np.array_equal(rn.vine_corr(d, eta, seed=s), rn.vine_corr(d, eta, seed=s + 1)))
        valid_corr(cx, "vine with eigenvalue floor", rn.vine_corr(d, eta, min_eig=True))
    elif kind == "onion":
        Rs = np.array([rn.onion_corr(d, eta) for _ in range(n)])
    else:
        Rs = rn.r_lkj(eta=eta, n=n, dim=d, rng=np.random.default_rng(cx.it))
        cx.ok("lkj: stack shape", Rs.shape == (n, 1, d, d), Rs.shape)
        cx.ok("lkj: same seed same matrices", np.array_equal(rn.r_lkj(eta, 3, d, seed=cx.it), rn.r_lkj(eta, 3, d, seed=cx.it)))
        cx.ok("lkj: seeds differ", not np.array_equal(rn.r_lkj(eta, 3, d, seed=cx.it), rn.r_lkj(eta, 3, d, seed=cx.it + 1)))
        L = rn.r_lkj_cholesky(eta=eta, n=4, dim=d, seed=cx.it)
        R = rn.r_lkj(eta=eta, n=4, dim=d, seed=cx.it)
        cx.close("lkj: factor and matrix agree", L @ np.swapaxes(L, -1, -2), R, 1e-10, 1e-10)
        cx.close("lkj: factor is lower triangular", np.triu(L, 1), np.zeros_like(L), 0, 1e-14)
        etas = np.array([eta, eta + 1.5])
        Re = rn.r_lkj(eta=etas, n=2, dim=d, seed=cx.it)
        cx.ok("lkj: several concentrations", Re.shape == (2, 2, d, d), Re.shape)
        for M in Re.reshape(-1, d, d):
            valid_corr(cx, "lkj several concentrations", M)
        one = rn.r_lkj(eta=eta, n=3, dim=1, seed=cx.it)
        cx.ok("lkj: one dimension", one.shape == (3, 1, 1, 1) and np.all(one == 1.0), one.shape)
        Rs = Rs[:, 0]
    w = np.linalg.eigvalsh(Rs)
    # the vine draws skip steps of their recursion below the first row (known finding)
    deep = "vine below its first row" if kind == "vine" and d > 2 else kind
    cx.ok(f"{deep}: positive definite", w.min() > -1e-9, float(w.min()))
    cx.close(f"{kind}: symmetric", Rs, np.swapaxes(Rs, 1, 2), 1e-12, 1e-12)
    cx.close(f"{kind}: unit diagonal", np.einsum("kii->ki", Rs), np.ones((n, d)), 1e-10, 1e-10)
    a = eta + (d - 2) / 2.0
    law = ST.beta(a, a, loc=-1, scale=2)
    for i in range(d):
        for j in range(i):
            ks(cx, f"{kind}: entry law", Rs[:, i, j], law)
    ld = np.log(np.maximum(np.linalg.det(Rs), 1e-300))
    if eta >= 1:
        ks2(cx, f"{deep}: determinant law", ld, lkj_logdet(rng, d, eta, 4000))
    cx.note("matrices", n)


@workload("wishart family", quick=24, thorough=120, shards=2, timeout=400)
def w_wish(cx):
    from pystatsm.utilities import random as rn
    rng = cx.rng
    seed_jit(cx)
    p = int(rng.integers(1, 6))
    df = float(p + rng.choice([0.5, 1, 3, 20]))
    V = rand_corr(rng, p) * np.outer(*[10 ** rng.uniform(-1, 1, p)] * 2)
    V = (V + V.T) / 2
    kind = ["wishart", "invwishart", "r_invwishart", "r_invgamma"][cx.it % 4]
    n = 1500
    cx.case((kind, p, df))
    if kind == "r_invgamma":
        sc = float(10 ** rng.uniform(-1, 1))
        x = np.array([rn.r_invgamma(df, sc) for _ in range(n)])
        return ks(cx, "inverse gamma law", x, ST.invgamma(df, scale=sc))
    W = np.array([getattr(rn, kind)(df, V) for _ in range(n)])
    cx.closen(f"{kind}: symmetric", W, np.swapaxes(W, 1, 2), 1e-8, 1e-300)
    scale = np.linalg.inv(V) if kind == "r_invwishart" else V
    if kind != "wishart":
        W = np.linalg.inv(W)
    ld = np.linalg.slogdet(W)
    cx.ok(f"{kind}: positive definite", np.all(ld[0] > 0))
    for _ in range(3):
        a = rng.normal(size=p)
        q = np.einsum("i,kij,j->k", a, W, a) / (a @ scale @ a)
        ks(cx, f"{kind}: projection law", q, ST.chi2(df))
    if p > 1:
        ref = np.sum([np.log(rng.chisquare(df - i, size=6000)) for i in range(p)], axis=0)
        ks2(cx, f"{kind}: determinant law", ld[1] - np.linalg.slogdet(scale)[1], ref)
    # leading element conditioned on nothing: off diagonal sign balance
    m = W.mean(0)
    sd = np.sqrt((scale ** 2 + np.outer(np.diag(scale), np.diag(scale))) * df / n)
    cx.ok(f"{kind}: mean", np.all(np.abs(m - df * scale) < 7 * sd + 1e-12), dict(z=(m - df * scale) / sd))


@workload("exact normal samples", quick=40, thorough=300, shards=2, timeout=300)
def w_exact(cx):
    from pystatsm.utilities import random as rn
    from pystatsm.utilities.cov_utils import _exact_cov
    rng = cx.rng
    p = int(rng.integers(1, 9))
    n = int(p + rng.integers(2, 200))
    S = rand_corr(rng, p)
    s = 10 ** rng.uniform(-2, 2, p)
    S = S * np.outer(s, s)
    S = (S + S.T) / 2
    mu = rng.normal(size=p) * 10 ** rng.uniform(-1, 2)
    seed = int(rng.integers(2**31 - 1))
    cx.case((p, n > 3 * p))
    S0, mu0 = S.copy(), mu.copy()
    X = rn.exact_rmvnorm(S, n, mu, seed)
    cx.ok("sample: shape", X.shape == (n, p), X.shape)
    sc = np.sqrt(np.diag(S))
    C = np.cov(X.T, bias=True).reshape(p, p)
    cx.close("sample: covariance", C / np.outer(sc, sc), S / np.outer(sc, sc), 1e-7, 1e-7)
    cx.close("sample: mean", (X.mean(0) - mu) / (sc + np.abs(mu)), np.zeros(p), 0, 1e-9)
    cx.ok("sample: repeats with its seed", np.array_equal(X, rn.exact_rmvnorm(S, n, mu, seed)))
    cx.ok("sample: seeds differ", not np.array_equal(X, rn.exact_rmvnorm(S, n, mu, seed + 1)))
    Y = rn.exact_rmvnorm(S, n, None, seed)
    cx.close("sample: no mean is centred", (X - mu) / sc, Y / sc, 1e-6, 1e-7)
    cx.ok("sample: inputs unchanged", np.array_equal(S, S0) and np.array_equal(mu, mu0))
    Z = rng.normal(size=(n, p)) @ rng.normal(size=(p, p)) + rng.normal(size=p)
    E = _exact_cov(Z.copy(), mean=mu, cov=S)
    C = np.cov(E.T, bias=True).reshape(p, p)
    cx.close("matched sample: covariance", C / np.outer(sc, sc), S / np.outer(sc, sc), 1e-6, 1e-6)
    cx.close("matched sample: mean", (E.mean(0) - mu) / (sc + np.abs(mu)), np.zeros(p), 0, 1e-8)


@workload("truncated draws", quick=60, thorough=400, shards=2, timeout=300)
def w_trunc(cx):
    from pystatsm.utilities import random as rn
    rng = cx.rng
    seed_jit(cx)
    mu = float(rng.normal() * 10 ** rng.uniform(-1, 2))
    sd = float(10 ** rng.uniform(-2, 2))
    kind = ["both", "narrow", "below", "above", "free", "tail above", "tail below", "tail both"][cx.it % 8]
    a, b = -np.inf, np.inf
    z = np.sort(rng.normal(size=2))
    if kind == "both":
        a, b = z
    elif kind == "narrow":
        a = rng.normal() * 2
        b = a + 10 ** rng.uniform(-3, -1)
    elif kind == "below":
        a = rng.normal()
    elif kind == "above":
        b = rng.normal()
    elif kind == "tail above":
        a = rng.uniform(2, 12)
    elif kind == "tail below":
        b = -rng.uniform(2, 12)
    elif kind == "tail both":
        a = rng.uniform(2, 8)
        b = a + rng.uniform(0.2, 3)
        if rng.random() < 0.5:
            a, b = -b, -a
    cx.case((kind, int(np.log10(sd))))
    big = 1e20 if rng.random() < 0.5 else np.inf
    lo = mu + sd * a if np.isfinite(a) else -big
    hi = mu + sd * b if np.isfinite(b) else big
    n = 1500
    f = np.full
    x = rn.trnorm(f(n, mu), f(n, sd), f(n, lo), f(n, hi))
    ulp = 1e-12 * (abs(mu) + sd * 15)
    cx.ok("draws inside their bounds", np.all((x >= lo - ulp) & (x <= hi + ulp)),
          dict(lo=lo, hi=hi, mn=float(x.min()), mx=float(x.max())))
    aa, bb = ((lo - mu) / sd if np.isfinite(a) else -np.inf), ((hi - mu) / sd if np.isfinite(b) else np.inf)
    # probability integral through the tail that keeps its digits
    u = (x - mu) / sd
    if aa > 0:
        lt, lb = ST.norm.logsf(aa), ST.norm.logsf(bb)
        P = -np.expm1(np.clip(ST.norm.logsf(u) - lt, None, 0)) / (-np.expm1(lb - lt))
    else:
        lt, lb = ST.norm.logcdf(bb), ST.norm.logcdf(aa)
        P = (np.exp(ST.norm.logcdf(u) - lt) - np.exp(lb - lt)) / (-np.expm1(lb - lt))
    ks(cx, "draws follow the truncated law", np.clip(P, 0, 1), ST.uniform())
    # element-wise parameters
    m = 200
    mus, sds = rng.normal(size=m) * 5, 10 ** rng.uniform(-2, 1, m)
    los = np.where(rng.random(m) < 0.3, -np.inf, mus + sds * rng.normal(size=m))
    his = np.where(rng.random(m) < 0.3, np.inf, np.where(np.isfinite(los), los, mus) + sds * rng.uniform(0.01, 4, m))
    xs = rn.trnorm(mus, sds, los, his)
    tol = 1e-12 * (np.abs(mus) + sds * 20)
    cx.ok("element-wise bounds", np.all((xs >= los - tol) & (xs <= his + tol)))
    cx.note("draws", n + m)


@workload("heavy tailed draws", quick=24, thorough=120, shards=1, timeout=200)
def w_t(cx):
    from pystatsm.utilities import random as rn
    rng = cx.rng
    n = 2000
    nu = float(rng.choice([1, 2, 3.5, 10]))
    loc, scale = float(rng.normal() * 10), float(10 ** rng.uniform(-1, 1))
    p = int(rng.integers(1, 5))
    cx.case((nu, p))
    s = int(rng.integers(2**31))
    g = np.random.default_rng
    ks(cx, "t law", rn.students_t(loc, scale, nu, n, g(s)), ST.t(nu, loc, scale))
    ks(cx, "cauchy law", rn.cauchy(loc, scale, n, g(s)), ST.cauchy(loc, scale))
    S = rand_corr(rng, p) * scale ** 2
    mu = rng.normal(size=p) * 10
    X = rn.multivariate_t(mu, S, nu, n, g(s))
    cx.ok("multivariate t: shape", X.shape == (n, p), X.shape)
    for _ in range(3):
        a = rng.normal(size=p)
        ks(cx, "multivariate t: projection law", (X - mu) @ a / np.sqrt(a @ S @ a), ST.t(nu))
    q = np.einsum("ni,ij,nj->n", X - mu, np.linalg.inv(S), X - mu) / p
    ks(cx, "multivariate t: radius law", q, ST.f(p, nu))
    cx.ok("multivariate t: repeats", np.array_equal(X, rn.multivariate_t(mu, S, nu, n, g(s))))
    one = rn.multivariate_t(mu, S, nu, rng=g(s))
    cx.ok("multivariate t: single draw", np.shape(one) == (p,), np.shape(one))
    cx.ok("t repeats", np.array_equal(rn.students_t(loc, scale, nu, 9, g(s)), rn.students_t(loc, scale, nu, 9, g(s))))


@workload("orthogonal draws", quick=24, thorough=150, shards=1, timeout=200)
def w_ortho(cx):
    from pystatsm.utilities import random as rn
    rng = cx.rng
    d = int(rng.integers(2, 9))
    p = int(rng.integers(1, d + 1))
    cx.case((d, p))
    s = int(rng.integers(2**31))
    n = 300
    Q = np.array([rn._special_ortho(d, rng=rng) for _ in range(n)])
    cx.close("rotation: orthogonal", Q @ np.swapaxes(Q, 1, 2), np.broadcast_to(np.eye(d), Q.shape), 1e-10, 1e-10)
    cx.close("rotation: determinant one", np.linalg.det(Q), np.ones(n), 1e-9, 1e-9)
    law = ST.beta(0.5, (d - 1) / 2.0)
    for i, j in rng.integers(0, d, size=(4, 2)):
        ks(cx, "rotation: entry law", Q[:, i, j] ** 2, law)
        cx.ok("rotation: entry sign", abs(np.sum(np.sign(Q[:, i, j]))) < 7 * np.sqrt(n))
    cx.ok("rotation repeats", np.array_equal(rn._special_ortho(d, seed=s), rn._special_ortho(d, seed=s)))
    T = rn._ortho_norm(d, p, seed=s)
    cx.ok("frame: shape", T.shape == (d, p))
    cx.close("frame: orthonormal", T.T @ T, np.eye(p), 1e-10, 1e-10)
    cx.ok("frame repeats", np.array_equal(T, rn._ortho_norm(d, p, seed=s)))


@workload("factor simulators", quick=24, thorough=120, shards=2, timeout=300)
def w_factor(cx):
    from pystatsm.pyfa2 import simulation as sm
    from pystatsm.pyfa.simulate_factor_model import FactorModelSim
    rng = cx.rng
    m = int(rng.integers(1, 5))
    p = int(m * rng.integers(2, 6) + rng.integers(0, m))
    random = bool(cx.it % 2)
    s = int(rng.integers(2**31))
    g = lambda: np.random.default_rng(s)
    cx.case((m, random))

    def simple(monitor, L, lo, hi):
        cx.ok(monitor + ": shape", L.shape == (p, m), L.shape)
        cx.ok(monitor + ": one factor per variable", np.all((L != 0).sum(1) == 1))
        cx.ok(monitor + ": every factor loads", np.all((L != 0).sum(0) >= p // m))
        v = L[L != 0]
        cx.ok(monitor + ": range", v.min() >= lo - 1e-12 and v.max() <= hi + 1e-12)
        for j in range(m):
            c = L[:, j][L[:, j] != 0]
            cx.ok(monitor + ": decreasing", np.all(np.diff(c) <= 1e-12))
    lo, hi = 0.3, 0.85
    L = sm.generate_loadings(p, m, lo, hi, random=random, rng=g())
    simple("loadings", L, lo, hi)
    cx.ok("loadings repeat", np.array_equal(L, sm.generate_loadings(p, m, lo, hi, random=random, rng=g())))
    rho = float(rng.uniform(0.1, 0.8))
    Phi = sm.generate_factor_corr(m, rho=rho, random=random, eta=2.0, rng=g())
    cx.ok("factor correlations: shape", np.shape(Phi) == (m, m), np.shape(Phi))
    valid_corr(cx, "factor correlations", Phi)
    cx.ok("factor correlations repeat", np.array_equal(Phi, sm.generate_factor_corr(m, rho=rho, random=random, eta=2.0, rng=g())))
    if not random:
        k = np.arange(m)
        cx.close("factor correlations: decay", np.abs(Phi), rho ** np.abs(k[:, None] - k), 1e-12, 1e-14)
    psi = sm.generate_uniquenesses(p, 0.2, 0.6, random=random, rng=g())
    cx.ok("uniquenesses: range", psi.shape == (p,) and psi.min() >= 0.2 - 1e-12 and psi.max() <= 0.6 + 1e-12)
    fm = sm.FactorModel(L, Phi, np.diag(psi) if random else psi)
    Sig = L @ Phi @ L.T + np.diag(psi)
    cx.close("factor model: covariance", fm.Sigma, Sig, 1e-12, 1e-12)
    n = 1500
    X = fm.sample(n, rng=g())
    cx.ok("factor model: repeats", np.array_equal(X, fm.sample(n, rng=g())))
    ks(cx, "factor model: sample law", np.einsum("ni,ij,nj->n", X, np.linalg.inv(Sig), X), ST.chi2(p))

    def mk():
        f = FactorModelSim(n_vars=p, n_facs=m, rng=g()) if cx.it % 4 < 2 else FactorModelSim(n_vars=p, n_facs=m, seed=s)
        f.simulate_cov(loadings_kws=dict(random=random), factor_corr_kws=dict(random=random),
                       residual_cov_kws=dict(random=random))
        return f
    f = mk()
    simple("simulated loadings", f.L, 0.4, 1.0)
    cx.ok("simulated factor correlations: shape", np.shape(f.Phi) == (m, m), np.shape(f.Phi))
    valid_corr(cx, "simulated factor correlations", f.Phi)
    ps = np.diag(f.Psi)
    cx.ok("simulated residuals", np.array_equal(f.Psi, np.diag(ps)) and ps.min() >= 0.3 - 1e-12 and ps.max() <= 0.7 + 1e-12)
    cx.close("simulated covariance", f.Sigma, f.L @ f.Phi @ f.L.T + f.Psi, 1e-12, 1e-12)
    n = int(p + m + 20)
    Z, X = f.simulate_data(n_obs=n, exact=True)
    cx.close("exact data: covariance", np.cov(X.T, bias=True), f.Sigma, 1e-7, 1e-7)
    cx.close("exact data: mean", X.mean(0), np.zeros(p), 0, 1e-8)
    cx.close("exact data: latent part", X, Z[:, :m] @ f.L.T + Z[:, m:], 1e-10, 1e-10)
    cx.ok("exact data repeats", np.array_equal(X, mk().simulate_data(n_obs=n, exact=True)[1]))
    Z, X = f.simulate_data(n_obs=1500, exact=False)
    ks(cx, "random data: law", np.einsum("ni,ij,nj->n", X, np.linalg.inv(f.Sigma), X), ST.chi2(p))
    f1, f2 = mk(), mk()
    cx.ok("random data repeats", np.array_equal(f1.simulate_data(50, exact=False)[1], f2.simulate_data(50, exact=False)[1]))


@workload("factor simulation study", quick=1, thorough=4, shards=1, timeout=600)
def w_study(cx):
    from pystatsm.pyfa2.sim_factor_model import run
    kind = ["ortho", "oblique"][cx.it % 2]
    cx.case(kind)
    out = run(6, 2, 800, 4, rotation_kind=kind, seed=int(cx.rng.integers(1000)))
    nf = len(out["theta_true"])
    cx.ok("study: shapes", out["thetas"].shape == (4, nf) and out["Vs"].shape == (4, nf, nf))
    cx.ok("study: covariances", all(np.linalg.eigvalsh((V + V.T) / 2).min() > -1e-8 for V in out["Vs"]))
    se = np.sqrt(np.einsum("kii->ki", out["Vs"]))
    cx.close("study: standardised deviations", out["z"], (out["thetas"] - out["theta_true"]) / se, 1e-8, 1e-8)
    cx.ok("study: estimates near truth", np.abs(out["z"]).max() < 12, float(np.abs(out["z"]).max()))


@workload("canonical correlation simulator", quick=30, thorough=200, shards=1, timeout=200)
def w_cca(cx):
    from pystatsm.pyscca.cca_sim import SimCCA
    rng = cx.rng
    p, q = (int(v) for v in rng.integers(1, 6, size=2))
    k = min(p, q)
    s = int(rng.integers(2**31))
    rhos = None if cx.it % 3 == 0 else np.sort(rng.uniform(0.05, 0.95, k))[::-1]
    kws = {}
    if cx.it % 3 == 2:
        kws = dict(x_corr=rand_corr(rng, p), y_corr=rand_corr(rng, q))
        if cx.it % 2:
            def frame(S, k):
                w, V = np.linalg.eigh(S)
                R = V / np.sqrt(w) @ V.T
                return R @ np.linalg.qr(rng.normal(size=(len(S), k)))[0] * rng.uniform(0.5, 2, k)
            kws.update(x_coefs=frame(kws["x_corr"], k), y_coefs=frame(kws["y_corr"], k))
    cx.case((np.sign(p - q), rhos is None, len(kws)))
    seeded = bool(rng.random() < 0.5)
    mk = lambda: SimCCA(p, q, rhos=rhos, **(dict(seed=s) if seeded else dict(rng=np.random.default_rng(s))), **kws)
    m = mk()
    S = np.asarray(m.corr)
    valid_corr(cx, "joint correlation", S)
    Sxx, Sxy, Syy = S[:p, :p], S[:p, p:], S[p:, p:]
    cx.close("blocks", np.r_[np.ravel(m.x_corr), np.ravel(m.xy_corr), np.ravel(m.y_corr)],
             np.r_[Sxx.ravel(), Sxy.ravel(), Syy.ravel()], 1e-12, 1e-12)
    if kws:
        cx.close("given x correlation", Sxx, kws["x_corr"], 1e-12, 1e-12)
        cx.close("given y correlation", Syy, kws["y_corr"], 1e-12, 1e-12)
    isq = lambda M: (lambda w, V: V / np.sqrt(w) @ V.T)(*np.linalg.eigh(M))
    sv = np.linalg.svd(isq(Sxx) @ Sxy @ isq(Syy), compute_uv=False)
    cx.close("canonical correlations", sv, np.sort(np.abs(m.rhos))[::-1], 1e-7, 1e-7)
    if rhos is not None:
        cx.close("requested correlations", np.asarray(m.rhos), rhos, 1e-12, 0)
    Wx, Wy = np.asarray(m.x_coefs), np.asarray(m.y_coefs)
    cx.close("x weights orthonormal", Wx.T @ Sxx @ Wx, np.eye(Wx.shape[1]), 1e-8, 1e-8)
    cx.close("y weights orthonormal", Wy.T @ Syy @ Wy, np.eye(Wy.shape[1]), 1e-8, 1e-8)
    C = Wx.T @ Sxy @ Wy
    D = np.zeros_like(C)
    D[np.arange(k), np.arange(k)] = m.rhos
    cx.close("weights diagonalise", C, D, 1e-8, 1e-8)
    n = int(p + q + 30)
    X, Y = m.simulate_data(n, exact=True)
    cx.close("exact data", np.cov(np.c_[X, Y].T, bias=True), S, 1e-6, 1e-6)
    m2 = mk()
    cx.ok("simulator repeats", np.array_equal(m2.corr, S))
    X2, Y2 = m2.simulate_data(n, exact=True)
    cx.ok("exact data repeats", np.array_equal(X, X2) and np.array_equal(Y, Y2))
    m3, m4 = mk(), mk()
    A, B = m3.simulate_data(400), m4.simulate_data(400)
    cx.ok("random data repeats", np.array_equal(A[0], B[0]) and np.array_equal(A[1], B[1]))
    cx.ok("random data shape", A[0].shape == (400, p) and A[1].shape == (400, q))
    cx.close("random data standardised", np.r_[A[0].std(0), A[1].std(0)], np.ones(p + q), 1e-9, 1e-9)
    R = np.corrcoef(np.c_[A[0], A[1]].T)
    cx.ok("random data correlation", np.abs(np.arctanh(np.clip(R[np.tril_indices(p + q, -1)], -.9999999, .9999999))
          - np.arctanh(np.clip(S[np.tril_indices(p + q, -1)], -.9999999, .9999999))).max(initial=0) < 7 / np.sqrt(397))


def mixed_case(rng):
    k = int(rng.integers(1, 3))
    ng = [int(v) for v in rng.integers(3, 9, size=k)]
    n = int(np.prod(ng) * rng.integers(3, 6))
    names = list(rng.permutation(["gA", "zB", "id3"]))[:k]
    xs = ["x1", "x2"][:int(rng.integers(1, 3))]
    res = []
    for _ in range(k):
        slope = rng.random() < 0.6
        res.append((["1", str(rng.choice(xs))] if slope else ["1"]))
    G = {}
    for nm, t in zip(names, res):
        d = len(t)
        A = rng.normal(size=(d, d + 2))
        G[nm] = A @ A.T + 0.2 * np.eye(d)
    groups = {}
    slow = np.repeat(np.arange(ng[0]), n // ng[0])
    groups[names[0]] = slow
    if k > 1:
        groups[names[1]] = np.tile(np.arange(ng[1]), n // ng[1])
    fe = "1+" + "+".join(xs)
    frm = "y~" + fe + "".join(f"+({'+'.join(t)}|{nm})" for nm, t in zip(names, res))
    beta = rng.normal(size=1 + len(xs)) + 0.3
    return dict(n=n, ng=dict(zip(names, ng)), names=names, xs=xs, res=dict(zip(names, res)), G=G, groups=groups,
                formula=frm, fe=fe, beta=beta)


def effects_by_row(case, df, u, order):
    """Row contributions of the random effects by direct lookup."""
    out = np.zeros(len(df))
    start = 0
    for nm in order:
        t, g = case["res"][nm], case["ng"][nm]
        U = u[start:start + g * len(t)].reshape(g, len(t))
        start += g * len(t)
        Zt = np.column_stack([np.ones(len(df)) if v == "1" else df[v].values for v in t])
        out += np.sum(Zt * U[df[nm].values.astype(int)], axis=1)
    return out, start


@workload("mixed model simulators", quick=30, thorough=200, shards=3, timeout=400)
def w_mixed(cx):
    rng = cx.rng
    case = mixed_case(rng)
    n = case["n"]
    s = int(rng.integers(2**31))
    gen = cx.it % 2
    ratios = None if rng.random() < 0.4 else rng.dirichlet([2, 2, 2])[:2]
    cx.case((gen, len(case["names"]), tuple(len(t) for t in case["res"].values()), ratios is None))
    x = len(case["xs"])
    mean, cov = rng.normal(size=x), rand_corr(rng, x) * 2
    if gen == 0:
        from pystatsm.pylmm.sim_lmm import MixedModelSim
        md = dict(n_obs=n, mu=mean, vcov=cov, beta=case["beta"], gcov={k: v.copy() for k, v in case["G"].items()},
                  ginfo={k: dict(n_grp=g, n_per=n // g) for k, g in case["ng"].items()})
        keep = {k: v.copy() for k, v in md["gcov"].items()}
        mk = lambda: MixedModelSim(case["formula"], md, rng=np.random.default_rng(s), group_dict=case["groups"], var_ratios=ratios)
        m = mk()
        cx.ok("caller's covariances unchanged", all(np.array_equal(keep[k], md["gcov"][k]) for k in keep))
        order = list(m.dims.keys())
        th = {k: m.theta_true[m.indices["theta"][k]] for k in order}
        c = 1.0 if ratios is None else float(m.c)
        G = {k: v * c for k, v in case["G"].items()}
        for k in order:
            L = G[k][np.tril_indices(len(G[k]))] if len(G[k]) == 1 else G[k].T[np.triu_indices(len(G[k]))]
            cx.close("parameters hold the covariances", th[k], L, 1e-9, 1e-12)
        Gm = m.G.toarray()
        want = sp.linalg.block_diag(*[np.kron(np.eye(case["ng"][k]), G[k]) for k in order])
        cx.close("covariance of the effects", Gm, want, 1e-9, 1e-12)
        df, X, Z = m.df, np.asarray(m.X), (m.Z.toarray() if hasattr(m.Z, "toarray") else np.asarray(m.Z))
        draw = lambda mm: mm.simulate_response(exact_ranefs=False, exact_resids=True)
        y, u = draw(m)
        y2, u2 = draw(mk())
        ex = mk().simulate_ranefs(exact_ranefs=True)
        eta_fe = m.eta_fe
        resid_var = None if ratios is None else float(np.squeeze(m.v_rs))
    else:
        from pystatsm.pylmm import sim_lmm2 as s2
        spec = s2.SimSpec.from_formula(case["formula"], n, case["beta"],
                                       case["G"] if rng.random() < 0.5 else [case["G"][k] for k in case["names"]],
                                       resid_var=float(rng.uniform(0.3, 3)), groupings=case["groups"],
                                       cov_spec=s2.CovariateSpec(case["xs"], mean, cov))

        def mk():
            m = s2.MixedModelSim(spec, np.random.default_rng(s))
            return m
        m0 = mk()
        cx.ok("formula keeps its terms", [r.group_var for r in m0.spec.ranef] == case["names"])
        m, m1 = m0, mk()
        if ratios is not None:
            m, m1 = m.rescaled(*ratios), m1.rescaled(*ratios)
            ref = m0
            vf, vr = m.variance_components()
            tot = vf + vr + m.spec.resid_var
            cx.close("variance shares", np.array([vf, vr]) / tot, ratios, 1e-8, 1e-10)
        order = case["names"]
        # rescaling rebuilds the covariates, so the shared constant is recovered from the parameters
        c = 1.0 if ratios is None else float(m.spec.ranef[0].G[0, 0] / case["G"][order[0]][0, 0])
        G = {k: v * c for k, v in case["G"].items()}
        th = np.concatenate([G[k].T[np.triu_indices(len(G[k]))] for k in order] + [[m.spec.resid_var]])
        cx.close("parameters hold the covariances", m.theta_true, th, 1e-9, 1e-12)
        df, X, Z = m.df, np.asarray(m.X), (m.Z.toarray() if hasattr(m.Z, "toarray") else np.asarray(m.Z))
        y, u = m.draw(exact_resids=True)
        y2, u2 = m1.draw(exact_resids=True)
        ex = m.draw_ranefs(exact=True)
        eta_fe = m.eta_fe
        resid_var = float(m.spec.resid_var)
        mod = None
    cx.close("fixed part", eta_fe, case["beta"][0] + df[case["xs"]].values @ case["beta"][1:], 1e-9, 1e-9)
    cx.close("covariates: mean", df[case["xs"]].values.mean(0), mean, 1e-8, 1e-8)
    cx.close("covariates: covariance", np.cov(df[case["xs"]].values.T, bias=True).reshape(x, x), cov, 1e-7, 1e-7)
    row, used = effects_by_row(case, df, u, order)
    cx.ok("one effect per column", used == len(u) == Z.shape[1], (used, len(u), Z.shape))
    cx.close("design places the effects", Z @ u, row, 1e-9, 1e-9)
    eps = y - eta_fe - row
    cx.close("residuals centred", eps.mean(), 0.0, 0, 1e-8 * (1 + np.abs(y).max()))
    if resid_var is not None:
        cx.close("residual variance", eps.var(), resid_var, 1e-7, 1e-10)
    else:
        cx.close("residual share", eps.var() / ((eta_fe + row).var()), (1 - .64) / .64, 1e-7, 1e-9)
    cx.ok("simulation repeats", np.array_equal(y, y2) and np.array_equal(u, u2))
    start = 0
    for k in order:
        g, d = case["ng"][k], len(case["res"][k])
        U = ex[start:start + g * d].reshape(g, d)
        start += g * d
        if g > d + 1:
            cx.close("exact effects: mean", U.mean(0), np.zeros(d), 0, 1e-8 * (1 + np.abs(U).max()))
            cx.close("exact effects: covariance", np.cov(U.T, bias=True).reshape(d, d), G[k], 1e-6, 1e-8)
    v_fe, v_re = eta_fe @ eta_fe / n, np.mean(np.einsum("ij,jk,ik->i", Z, sp.linalg.block_diag(
        *[np.kron(np.eye(case["ng"][k]), G[k]) for k in order]), Z, optimize=True))
    if ratios is not None and gen == 0:
        tot = v_fe + v_re + resid_var
        cx.close("variance shares", np.array([v_fe, v_re]) / tot, ratios, 1e-7, 1e-9)


@workload("group layouts", quick=40, thorough=300, shards=1, timeout=200)
def w_groups(cx):
    from pystatsm.pylmm import sim_lmm2 as s2
    rng = cx.rng
    a, b, k, r = (int(v) for v in rng.integers(2, 6, size=4))
    n = a * b * k * r
    perm = rng.permutation(n)
    own = bool(rng.random() < 0.3)
    cx.case((own,))
    top = s2.Grouping("top", membership=np.repeat(np.arange(a), n // a)[perm]) if own else s2.Grouping("top", a)
    out = s2.build_groupings(n, top, s2.Grouping("cross", b, cycle="tile"), s2.Nested("sub", "top", k))
    t, c, sub = out["top"], out["cross"], out["sub"]
    cx.ok("levels", set(t) == set(range(a)) and set(c) == set(range(b)) and set(sub) == set(range(a * k)))
    cx.ok("balanced", set(np.bincount(t)) == {n // a} and set(np.bincount(c)) == {n // b} and set(np.bincount(sub)) == {n // (a * k)})
    cx.ok("each child has one parent", all(len(set(t[sub == v])) == 1 for v in set(sub)))
    cx.ok("child names its parent", np.array_equal(sub // k, t))
    if not own:
        cx.ok("every combination appears", len(set(zip(t, c))) == a * b)
    cx.raises("uneven levels refused", ValueError, lambda: s2.build_groupings(n + 1, s2.Grouping("g", a if (n + 1) % a else n)))
    cx.raises("wrong length refused", ValueError, lambda: s2.build_groupings(n, s2.Grouping("g", membership=np.zeros(n - 1))))


@workload("regression simulators", quick=40, thorough=200, shards=2, timeout=300)
def w_reg(cx):
    rng = cx.rng
    kind = ["linear", "sparse", "robust", "multivariate"][cx.it % 4]
    s = int(rng.integers(2**31))
    g = lambda: np.random.default_rng(s)
    seeded = bool(rng.random() < 0.5)
    who = (lambda: dict(seed=s)) if seeded else (lambda: dict(rng=g()))
    cx.case((kind, seeded))
    if kind == "linear":
        from pystatsm.pyglm2.model_sim import LinearModelSim
        cats = bool(rng.random() < 0.5)
        lv = {} if rng.random() < 0.5 else {"x0": int(rng.integers(2, 6))}
        keep = dict(lv)
        form = "1+C(x0)+x1+x2" if cats else "1+x0+x1+x2"
        n = int(rng.integers(60, 300))
        mk = lambda: LinearModelSim.from_formula(form, n, nlevels=lv if cats else None, **who())
        m, m2 = mk(), mk()
        cx.ok("caller's levels unchanged", lv == keep)
        valid_corr(cx, "covariate correlation", m.corr)
        cx.close("covariates: correlation", np.corrcoef(m.Z1.T), m.corr, 1e-7, 1e-7)
        if cats:
            k = lv.get("x0", 2)
            z = m.data["x0"].values
            cx.ok("categories", set(z) == set(range(k)), sorted(set(z)))
            cx.ok("categories equally sized", np.ptp(np.bincount(z.astype(int))) <= 2, np.bincount(z.astype(int)))
            o = np.argsort(m.Z1[:, m.x_vars.index("x0")])
            cx.ok("categories ordered", np.all(np.diff(z[o]) >= 0))
        cx.close("linear predictor", np.asarray(m.linpred), m.X.values @ np.asarray(m.beta), 1e-10, 1e-10)
        cx.close("no intercept effect", m.beta[0], 0.0, 0, 0)
        m.rescale_coefs(2.5)
        cx.close("rescaled predictor", np.std(m.linpred), 2.5, 1e-8, 0)
        m2.rescale_coefs(2.5)
        cx.ok("simulator repeats", np.array_equal(m.data.values, m2.data.values) and np.array_equal(m.beta, m2.beta))
    elif kind in ("sparse", "robust"):
        if kind == "sparse":
            from pystatsm.pyglmnet.sparse_model_sim import SparseRegressionModel as Mod
        else:
            from pystatsm.pyrobust.robust_model_sim import RobustRegressionModel as Mod
        p = int(rng.integers(3, 15))
        nz = int(rng.integers(1, p))
        rho = float(rng.uniform(0.1, 0.9))
        n = int(p + rng.integers(40, 200))
        rsq = float(rng.uniform(0.1, 0.9))
        mk = lambda: Mod(n_obs=n, n_var=p, n_nnz=nz, rho=rho, rsq=rsq, **who())
        m, m2 = mk(), mk()
        k = np.arange(p)
        R = np.corrcoef(m.X.T)
        cx.close(f"{kind} covariates: correlation", R, rho ** np.abs(k[:, None] - k), 1e-6, 1e-6)
        cx.ok(f"{kind} coefficients", np.sum(m.beta != 0) == nz and len(m.beta) == p)
        cx.close(f"{kind} predictor", m.lpred, m.X @ m.beta, 1e-10, 1e-10)
        cx.close(f"{kind} noise scale", m.lpred.var() / (m.lpred.var() + m.resid_scale ** 2), rsq, 1e-9, 0)
        ns = int(rng.choice([1, 3]))
        y, y2 = m.simulate_dependent(n_samples=ns), m2.simulate_dependent(n_samples=ns)
        cx.ok(f"{kind} responses: shape", y.shape == ((n,) if ns == 1 else (n, ns)))
        cx.ok(f"{kind} simulator repeats", np.array_equal(m.X, m2.X) and np.array_equal(y, y2))
        Y = m.simulate_dependent(n_samples=30)
        law = ST.norm() if kind == "sparse" else ST.t(2)
        ks(cx, f"{kind} residual law", (Y - m.lpred[:, None]) / m.resid_scale, law)
        if kind == "sparse":
            B = m.simulate_dependent(response_dist="binomial", binom_n=4)
            cx.ok("sparse binomial responses", set(np.round(np.ravel(B) * 4, 9)) <= {0., 1., 2., 3., 4.})
    else:
        from pystatsm.pyglm2.sim_mvols import generate_mmr_data
        n, p, q = int(rng.integers(40, 300)), int(rng.integers(1, 8)), int(rng.integers(1, 6))
        r2 = float(rng.uniform(0.1, 0.9))
        kws = dict(n=n, p=p, q=q, fit_intercept=bool(rng.random() < 0.5),
                   beta_structure=str(rng.choice(["low_rank_plus_sparse", "sparse", "dense"])), beta_rank=min(2, p, q),
                   beta_sparsity=0.7, target_r2=r2, noise=str(rng.choice(["normal", "t"])), random_state=s)
        o, o2 = generate_mmr_data(**kws), generate_mmr_data(**kws)
        cx.ok("multivariate simulator repeats", np.array_equal(o["Y"], o2["Y"]))
        cx.close("multivariate responses", o["Y"], o["X_design"] @ o["B"] + o["E"], 1e-10, 1e-10)
        cx.close("multivariate design", o["X_design"][:, -p:], o["X"], 0, 0)
        M = o["X_design"] @ o["B"]
        v = M.var(0).sum()
        if v > 1e-12:
            cx.close("multivariate signal share", v / (v + np.trace(o["Sigma"])), r2, 1e-8, 0)
        cx.close("multivariate precision", o["Omega"] @ o["Sigma"], np.eye(q), 1e-7, 1e-7)
        L = o["precision_chol"]
        cx.close("multivariate precision factor", L @ L.T, o["Omega"], 1e-8, 1e-10)
        nb = o["B"].size
        cx.close("packed coefficients", o["theta_true"][:nb].reshape(o["B"].shape, order="F"), o["B"], 0, 0)
        i, j = np.tril_indices(q)
        lam = np.where(i == j, np.exp(o["theta_true"][nb:]), o["theta_true"][nb:])
        cx.close("packed precision factor", lam, L[i, j], 1e-10, 1e-12)


@workload("ordinal and SEM simulators", quick=16, thorough=80, shards=2, timeout=400)
def w_lv(cx):
    rng = cx.rng
    s = int(rng.integers(2**31))
    g = lambda: np.random.default_rng(s)
    if cx.it % 2:
        from pystatsm.pysem2.model_simulator import SimulatedSEM
        form = ["f1 =~ y1 + y2 + y3\nf2 =~ y4 + y5 + y6\nf2 ~ f1", "f1 =~ y1 + y2 + y3\nf1 ~ x1 + x2\ny4 ~ f1 + x2",
                "y1 ~ x1 + x2\ny2 ~ y1 + x3"][int(rng.integers(3))]
        ng = int(rng.integers(1, 4))
        cx.case(("sem", form.count("~"), ng))
        mk = lambda: SimulatedSEM(form, ng, 80, 200, rng=g())
        m, m2 = mk(), mk()
        d, d2 = m.simulate(), m2.simulate()
        cx.ok("SEM sizes", list(np.bincount(d["group"])) == list(m.n_obs) and all(80 <= v < 200 for v in m.n_obs))
        cx.ok("SEM columns", set(d.columns) == set(x for x in __import__("re").findall(r"[xy]\d", form)) | {"group"})
        cx.ok("SEM simulator repeats", list(d.columns) == list(d2.columns) and np.array_equal(d.values, d2.values))
        ms = m.model_spec
        for i in range(ng):
            par = ms.group_free_to_par(ms.transform_free_to_group_free(ms.free, i), i)
            L, B, F, P, a, b = ms.par_to_model_mats(par)
            Bi = np.linalg.inv(np.eye(len(B)) - B)
            Sig = L @ Bi @ F @ Bi.T @ L.T + P
            mu = (L @ Bi @ np.ravel(b) + np.ravel(a))
            lab = list(ms.mat_labels[0][0])
            X = d.loc[d["group"] == i, lab].values
            z = (X.mean(0) - mu) / np.sqrt(np.diag(Sig) / len(X))
            cx.ok("SEM means", np.abs(z).max() < 7, z)
            ks(cx, "SEM law", np.einsum("ni,ij,nj->n", X - mu, np.linalg.inv(Sig), X - mu), ST.chi2(len(mu)))
        return
    from pystatsm.pylvcorr import sim_lvcorr as sl
    r = float(rng.uniform(-0.9, 0.9))
    R = np.array([[1, r], [r, 1.]])
    poly = bool(rng.random() < 0.5)
    qx = np.sort(rng.uniform(0.1, 0.9, int(rng.integers(1, 5))))
    qy = np.sort(rng.uniform(0.1, 0.9, int(rng.integers(1, 5)))) if poly else False
    if poly and rng.random() < 0.3:
        qy = 3
    cx.case(("lv", poly, np.ndim(qy)))
    mk = lambda: sl.LVCorrSim(R, qx, qy, rng=g())
    m = mk()
    x, y = m.simulate(500)
    x2, y2 = mk().simulate(500)
    cx.ok("latent correlation simulator repeats", np.array_equal(x, x2) and np.array_equal(y, y2))
    cut = np.diff(np.r_[0, qx, 1]) * 500
    cx.ok("category shares", np.abs(np.bincount(x, minlength=len(cut)) - cut).max() <= 2)
    if poly:
        yb = np.asarray(m.y_bins)
        cut = np.diff(np.r_[0, yb, 1]) * 500
        cx.ok("outcome category shares", np.abs(np.bincount(y, minlength=len(cut)) - cut).max() <= 2)
    p = int(rng.integers(2, 6))
    q, taus = sl.random_thresholds(p, int(rng.integers(3, 8)), rng=g())
    q2, taus2 = sl.random_thresholds(p, len(taus[0]) if False else len(q[0]) + 1, rng=g())
    cx.ok("thresholds repeat", all(np.array_equal(taus[i], taus2[i]) for i in range(p)))
    for i in range(p):
        cx.ok("thresholds increase from minus to plus infinity",
              taus[i][0] == -np.inf and taus[i][-1] == np.inf and np.all(np.diff(q[i]) > 0))
        cx.close("thresholds match their quantiles", ST.norm.cdf(taus[i]), q[i], 1e-9, 1e-12)
    C = rand_corr(rng, p)
    mk = lambda: sl.PolycoricSim(C, taus, rng=g())
    Z, Y = mk().simulate_data(400)
    Z2, Y2 = mk().simulate_data(400)
    cx.ok("ordinal simulator repeats", np.array_equal(Z, Z2) and np.array_equal(Y, Y2))
    for i in range(p):
        k = Y[:, i].astype(int)
        cx.ok("categories follow the thresholds", np.all((Z[:, i] >= taus[i][k - 1]) & (Z[:, i] < taus[i][k])))
