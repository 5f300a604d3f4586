"""C07: mixed-model objective and derivatives against the dense marginal model."""
import numpy as np
from vlib.mon import workload
from vlib import lmmo
from pystatsm.pylmm.lmm import LMM
from pystatsm.pylmm.re_mod import LMM2, RandomEffects, MMEBlocked

R, A = 1e-7, 1e-7


def check_at(cx, name, fn, want, th, reml, rt=R):
    w = want(th, reml)
    cx.closen(name, np.asarray(fn(th.copy(), reml), float), w, rtol=rt, atol=1e-7)


def spd_ok(D, th):
    return np.linalg.cond(D.V(th)) < 1e8


def thetas(cx, D, k):
    out = []
    while len(out) < k:
        th = D.random_theta(cx.rng)
        if spd_ok(D, th): out.append(th)
    return out


def sig(d, extra=""):
    return [d["formula"], d["style"], d["labels"], d["n"], extra]


def full_rank(cx, D):
    if np.linalg.matrix_rank(D.X) < D.X.shape[1]: cx.skip("fixed effects not full rank")


@workload("LMM objective", quick=48, shards=8)
def lmm(cx):
    d = lmmo.make(cx.rng); D = lmmo.Dense(d); full_rank(cx, D); m = LMM(d["formula"], d["df"])
    cx.case(sig(d), theta=m.theta)
    ths = thetas(cx, D, 3); seq = [ths[i] for i in (0, 1, 2, 1, 0)]      # revisit earlier points
    for th in seq:
        for reml in (True, False):
            check_at(cx, "log-likelihood", m.loglike, D.loglike, th, reml)
            check_at(cx, "dense-route log-likelihood", lambda t, r: m.loglike(t, r, use_sparse=False), D.loglike, th, reml)
            check_at(cx, "gradient", m.gradient, D.gradient, th, reml, 1e-6)
    th = ths[0]
    for reml in (True, False):
        check_at(cx, "gradient (sparse form)", m._gradient_old, D.gradient, th, reml, 1e-6) if hasattr(m, "_gradient_old") else None
        check_at(cx, "gradient (dense form)", m._gradient_dense, D.gradient, th, reml, 1e-6) if hasattr(m, "_gradient_dense") else None
        check_at(cx, "Hessian", m.hessian, D.hessian, th, reml, 1e-6)
        tc = m.transform_theta(th.copy())
        cx.closen("unconstrained round trip", m.inverse_transform_theta(tc.copy()), th, 1e-9, 1e-12)
        f = lambda c: D.loglike(m.inverse_transform_theta(c.copy()), reml)
        cx.closen("log-likelihood (unconstrained)", m.loglike_c(tc, reml), f(tc), 1e-8, 1e-7)
        cx.deriv("gradient (unconstrained)", m.gradient_chol(tc, reml), f, tc, rtol=1e-5, atol=1e-5, h=1e-3)
        g = lambda c: m.gradient_chol(c.copy(), reml)
        cx.deriv("Hessian (unconstrained)", m.hessian_chol(tc, reml), g, tc, rtol=1e-5, atol=1e-5, h=1e-3)
    V = np.linalg.inv(D.V(th)); B = cx.rng.normal(size=(d["n"], 2))
    cx.closen("V^-1 cross-product", m.vinvcrossprod(D.X, B, th), D.X.T @ V @ B, 1e-7, 1e-8)


@workload("LMM2 objective", quick=64, shards=8)
def lmm2(cx):
    d = lmmo.make(cx.rng); D = lmmo.Dense(d); full_rank(cx, D)
    kw = [None, dict(sparse_threshold=0.0), dict(sparse_threshold=1.1)][cx.rng.integers(3)]
    m = LMM2(d["formula"], d["df"], mme_kws=kw); cx.case(sig(d, str(kw)))
    ths = thetas(cx, D, 3)
    ops = [("log-likelihood", m.loglike, D.loglike, R), ("gradient", m.gradient, D.gradient, 1e-6), ("gradient (second form)", m.gradient_v2, D.gradient, 1e-6)]
    for k in cx.rng.integers(0, len(ops) * 3 * 2, 18):                  # arbitrary interleaving of calls
        nm, fn, want, rt = ops[k % 3]; th = ths[(k // 3) % 3]; reml = k < 9
        check_at(cx, nm, fn, want, th, reml, rt)
    rp = m.mme.re_mod.reparam
    for reml in (True, False):
        th = ths[0]; eta = rp.fwd(th.copy())
        cx.closen("unconstrained round trip", rp.rvs(eta.copy()), th, 1e-8, 1e-10)
        f = lambda e: D.loglike(rp.rvs(e.copy()), reml)
        cx.closen("log-likelihood (unconstrained)", m.loglike_reparam(eta, reml), f(eta), 1e-8, 1e-7)
        for nm, fn in (("gradient (unconstrained)", m.gradient_reparam), ("gradient (unconstrained, second form)", m.gradient_v2_reparam)):
            cx.deriv(nm, np.asarray(fn(eta, reml)), f, eta, rtol=1e-5, atol=1e-5, h=1e-3)
    th = ths[1]; b, XVXi, u = m.compute_effects(th); be, C, ue = D.effects(th)
    cx.closen("GLS at given parameters", b, be, 1e-6, 1e-7); cx.closen("GLS covariance", XVXi, C, 1e-6, 1e-8); cx.closen("BLUP at given parameters", u, np.concatenate(ue), 1e-6, 1e-7)
    V = np.linalg.inv(D.V(th)); B = cx.rng.normal(size=(d["n"], 2))
    cx.closen("V^-1 cross-product", m.vinvcrossprod(D.X, B, th), D.X.T @ V @ B, 1e-7, 1e-8)


@workload("relationship covariances", quick=32, shards=4)
def kin(cx):
    r = cx.rng; d = lmmo.make(r); D0 = lmmo.Dense(d); full_rank(cx, D0); As, Ain = [], []; kinds = []
    import scipy.sparse as sps
    for lev in D0.lev:
        k = len(lev); kind = r.choice(["none", "dense", "tridiagonal", "inverse tridiagonal", "block", "diagonal"]); B = r.normal(size=(k, k)); S = B @ B.T / k + .5 * np.eye(k)
        T = 2 * np.eye(k) - .9 * np.eye(k, k=1) - .9 * np.eye(k, k=-1)
        if kind == "tridiagonal": S = T
        elif kind == "inverse tridiagonal": S = np.linalg.inv(T)
        elif kind == "block": h = k // 2; S[:h, h:] = 0; S[h:, :h] = 0
        elif kind == "diagonal": S = np.diag(r.uniform(.5, 2, k))
        As.append(np.eye(k) if kind == "none" else S); kinds.append(str(kind))
        Ain.append(None if kind == "none" else (sps.csc_matrix(S) if r.random() < .5 else S))
    D = lmmo.Dense(d, A=As); re_mod = RandomEffects(list(zip(d["re"], d["gr"])), d["df"], Ain)
    m = MMEBlocked(D.X, D.y[:, None], re_mod); cx.case(sig(d, kinds))
    ths = thetas(cx, D, 2)
    for th in (ths[0], ths[1], ths[0]):
        for reml in (True, False):
            check_at(cx, "log-likelihood", m._loglike, D.loglike, th, reml)
            check_at(cx, "gradient", m._gradient, D.gradient, th, reml, 1e-6)
            check_at(cx, "gradient (second form)", m._gradient_v2, D.gradient, th, reml, 1e-6)


@workload("invariances", quick=32, shards=4)
def inv(cx):
    r = cx.rng; d = lmmo.make(r); D = lmmo.Dense(d); full_rank(cx, D); th = thetas(cx, D, 1)[0]; df = d["df"]
    perm = r.permutation(len(df)); df2 = df.iloc[perm].reset_index(drop=True) if r.random() < .5 else df.iloc[perm]
    df3 = df.copy()
    for g in set(d["gr"]):
        lev = list(dict.fromkeys(np.asarray(df[g]).tolist())); new = r.permutation(len(lev)); mp = dict(zip(lev, new)); df3[g] = [f"z{mp[v]}" for v in np.asarray(df[g]).tolist()]
    for nm, M in (("LMM", LMM), ("LMM2", LMM2)):
        m0 = M(d["formula"], df); l0, g0 = m0.loglike(th.copy()), m0.gradient(th.copy())
        for how, dd in (("row order", df2), ("level labels", df3)):
            m = M(d["formula"], dd)
            cx.closen(f"{nm} objective unchanged by {how}", m.loglike(th.copy()), l0, 1e-8, 1e-7); cx.closen(f"{nm} gradient unchanged by {how}", m.gradient(th.copy()), g0, 1e-6, 1e-6)
        s = 3.7; df4 = df.copy(); df4["y"] = df4.y * s; m = M(d["formula"], df4); n, p = D.X.shape
        cx.closen(f"{nm} objective follows outcome scale", m.loglike(th * s * s), l0 + 2 * (n - p) * np.log(s) , 1e-8, 1e-7)
        m0.loglike(th * 2); m0.gradient(th * 3); cx.closen(f"{nm} objective independent of history", m0.loglike(th.copy()), l0, 1e-11, 1e-9)
    cx.case(sig(d, "inv"))
