"""C26 canonical correlations, sparse components, sequence factorisation, independent components."""
import contextlib, io
import numpy as np
import pandas as pd
import scipy.linalg
from vlib.mon import workload

from pystatsm.pyscca.base_cca import CCA
from pystatsm.pyscca.scca import SCCA, _scca_vec, _scca, threshold_search, sft
from pystatsm.pynmf import hfuncs
from pystatsm.pynmf.hfuncs import NMFSeq
from pystatsm.pyica.ica import ICA


def quiet(fn, *a, **k):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def corrdata(rng, n, p, q, rho=.8):
    k = int(rng.integers(1, min(p, q) + 1))
    Z = rng.normal(size=(n, k))
    X = Z @ rng.normal(size=(k, p)) * rho + rng.normal(size=(n, p))
    Y = Z @ rng.normal(size=(k, q)) * rho + rng.normal(size=(n, q))
    if rng.random() < .5:
        X = X * 10 ** rng.uniform(-4, 4, p) + rng.normal(size=p) * 10
        Y = Y * 10 ** rng.uniform(-4, 4, q) + rng.normal(size=q) * 10
    return X, Y


def frame(rng, X, Y):
    if rng.random() < .5:
        return X, Y, None, None
    ix = [f"r{i}" for i in rng.permutation(len(X))]
    xc, yc = [f"a{i}" for i in range(X.shape[1])], [f"b{i}" for i in range(Y.shape[1])]
    return pd.DataFrame(X, index=ix, columns=xc), pd.DataFrame(Y, index=ix, columns=yc), xc, yc


@workload("canonical correlations", quick=120, thorough=2500, shards=3)
def w_cca(cx):
    rng = cx.rng
    p, q = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    n = int(rng.integers(p + q + 2, 120))
    X, Y = corrdata(rng, n, p, q)
    coll = ""
    if p > 1 and rng.random() < .2:
        X = np.c_[X, X @ rng.normal(size=(p, 1)) / 3]
        coll = "x"
    if q > 1 and rng.random() < .2:
        Y = np.c_[Y, Y[:, 0]]
        coll += "y"
    Xi, Yi, xc, yc = frame(rng, X, Y)
    p2, q2 = X.shape[1], Y.shape[1]
    r = min(p, q)
    kk = None if rng.random() < .5 else int(rng.integers(1, r + 1))
    cx.case((p, q, coll, kk, xc is None), n=n)
    m = CCA(Xi, Yi)
    m._fit(**({} if kk is None else dict(n_comps=kk)))
    Z = lambda A: (A - A.mean(0)) / A.std(0)
    Zx, Zy = Z(X), Z(Y)

    def basis(A, k):
        U, s, _ = np.linalg.svd(A, full_matrices=False)
        return U[:, :k]
    ref = np.clip(np.linalg.svd(basis(Zx, p).T @ basis(Zy, q), compute_uv=False), 0, 1)
    k = len(m.Wx.T)
    cx.ok("number of components", k == (min(p2, q2) if kk is None else kk), k)
    cx.close("canonical correlations", m.rhos[:r], ref[:r], 1e-6, 1e-7)
    if len(m.rhos) > r:
        cx.close("no correlation without variance", m.rhos[r:], 0 * m.rhos[r:], 0, 1e-6)
    kr = min(k, r)
    Wx, Wy = m.Wx[:, :kr], m.Wy[:, :kr]
    ux, uy = Zx @ Wx, Zy @ Wy
    cx.close("x variates: unit variance, uncorrelated", ux.T @ ux / n, np.eye(kr), 1e-6, 1e-6)
    cx.close("y variates: unit variance, uncorrelated", uy.T @ uy / n, np.eye(kr), 1e-6, 1e-6)
    cx.close("cross-correlations are the canonical correlations", ux.T @ uy / n, np.diag(ref[:kr]), 1e-6, 1e-6)
    cx.close("loadings are correlations with the variates", m.Lx[:, :kr], Zx.T @ ux / n, 1e-6, 1e-6)
    cx.close("y loadings", m.Ly[:, :kr], Zy.T @ uy / n, 1e-6, 1e-6)
    cx.close("variates", np.asarray(m.x_canvar)[:, :kr], ux, 1e-8, 1e-8)
    cx.close("y variates", np.asarray(m.y_canvar)[:, :kr], uy, 1e-8, 1e-8)
    if xc is not None:
        cx.ok("labels", list(m.x_coefs.index) == xc and list(m.y_coefs.index) == yc and list(m.x_canvar.index) == list(Xi.index))
    cx.close("projection", m.PWx, m.Wx @ np.linalg.pinv(m.Wx), 1e-6, 1e-6)
    # affine invariance
    if not coll:
        A = rng.normal(size=(p, p)) + 3 * np.eye(p)
        if np.linalg.cond(A) < 50 and np.linalg.cond(np.corrcoef(X.T) if p > 1 else np.eye(1)) < 1e4:
            m2 = CCA(Zx @ A + 3, Zy)
            m2._fit()
            cx.close("correlations do not depend on the coordinates of X", m2.rhos[:r], ref[:r], 1e-6, 1e-7)
    m3 = CCA(Yi, Xi)
    m3._fit()
    cx.close("correlations are symmetric in X and Y", m3.rhos[:r], ref[:r], 1e-6, 1e-7)


FLOOR = False


def sthr(v, c):
    """exact maximiser of v'w over |w|_2 <= 1, |w|_1 <= c (c >= 1)"""
    global FLOOR
    a = np.abs(v)
    if np.linalg.norm(a) < .2:
        FLOOR = True
        return v
    if a.sum() <= c * np.linalg.norm(a):
        return v / np.linalg.norm(v)
    lo, hi = 0., a.max()
    for _ in range(200):
        t = (lo + hi) / 2
        s = np.maximum(a - t, 0)
        if s.any() and s.sum() > c * np.linalg.norm(s):
            lo = t
        else:
            hi = t
    s = np.maximum(a - lo, 0) * np.sign(v)
    FLOOR |= bool(np.linalg.norm(s) < .2)      # the norm is bounded away from zero there
    return s / np.linalg.norm(s)


@workload("sparse CCA iterations", quick=80, thorough=1200, shards=2)
def w_sccavec(cx):
    rng = cx.rng
    p, q = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    n = int(rng.integers(p + q + 5, 150))
    X, Y = corrdata(rng, n, p, q)
    X, Y = (X - X.mean(0)) / X.std(0), (Y - Y.mean(0)) / Y.std(0)
    S = X.T @ Y
    cxn, cyn = rng.uniform(1.02, np.sqrt(p)), rng.uniform(1.02, np.sqrt(q))
    cx.case((p, q, cxn > 1.5, cyn > 1.5), n=n)
    wx, wy = rng.normal(size=p), rng.normal(size=q)
    wx, wy = wx / np.linalg.norm(wx), wy / np.linalg.norm(wy)
    global FLOOR
    FLOOR = False
    f, pf = [], []
    x, y = wx, wy
    for it in range(1, 13):
        a, b, d, i = _scca_vec(S, wx, wy, cxn, cyn, n_iters=it, tol=0.)
        for nm, w, c in (("x", a, cxn), ("y", b, cyn)):
            cx.ok(f"{nm} weights: norm at most one", np.linalg.norm(w) <= 1 + 1e-9, np.linalg.norm(w))
            cx.ok(f"{nm} weights: absolute sum within the bound", np.abs(w).sum() <= c * (1 + 1e-4), (np.abs(w).sum(), c))
        f.append(a @ S @ b)
        x = sthr(S @ y, cxn)
        y = sthr(x @ S, cyn)
        pf.append(x @ S @ y)
    f, pf = np.array(f), np.array(pf)
    cx.ok("objective never falls", np.all(np.diff(f) >= -1e-4 * np.abs(f[1:])), f)
    if FLOOR:
        cx.note("path left out: threshold leaves almost nothing")
    else:
        cx.close("objective path of the alternating maximisation", f, pf, 1e-3, 1e-6)
    # several components: deflated variates are mutually orthogonal
    k = int(rng.integers(1, min(p, q) + 1))
    Wx, Wy, info = _scca(X, Y, wx, wy, cxn, cyn, k)
    ok = np.all(np.isfinite(Wx)) and np.all(np.isfinite(Wy))
    cx.ok("weights are finite", ok, (Wx, Wy))
    cx.ok("bounds hold for every component", np.all(np.abs(Wx).sum(1) <= cxn * (1 + 1e-4)) and np.all(np.abs(Wy).sum(1) <= cyn * (1 + 1e-4))
          and np.all(np.linalg.norm(Wx, axis=1) <= 1 + 1e-9), (np.abs(Wx).sum(1), cxn))
    t = threshold_search(S[:, 0], cxn)
    w = sft(S[:, 0], t)
    FLOOR = False
    want = sthr(S[:, 0], cxn)
    if not FLOOR:
        cx.closen("soft-thresholded direction", w / np.linalg.norm(w), want, 1e-3, 1e-6)


@workload("sparse CCA fits", quick=24, thorough=300, shards=2)
def w_scca(cx):
    rng = cx.rng
    p, q = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    n = int(rng.integers(60, 150))
    X, Y = corrdata(rng, n, p, q)
    Xi, Yi, xc, yc = frame(rng, X, Y)
    k = int(rng.integers(1, min(p, q) + 1))
    lx, ly = rng.uniform(1.05 / np.sqrt(p), 1.), rng.uniform(1.05 / np.sqrt(q), 1.)
    cx.case((p, q, k, xc is None), n=n)
    m = SCCA(Xi, Yi)
    Zx, Zy = (X - X.mean(0)) / X.std(0), (Y - Y.mean(0)) / Y.std(0)
    Wx, Wy, rho, info = m._fit(lx, ly, n_comps=k)
    vx, vy = Zx @ Wx, Zy @ Wy
    R = lambda A, B: np.corrcoef(A.T, B.T)[:A.shape[1], A.shape[1]:]
    Cx, Cy = np.atleast_2d(R(vx, vx)), np.atleast_2d(R(vy, vy))
    cx.close("x variates are mutually uncorrelated", Cx, np.eye(k), 1e-6, 1e-6)
    cx.close("y variates are mutually uncorrelated", Cy, np.eye(k), 1e-6, 1e-6)
    C = R(vx, vy)
    want = np.concatenate([C[j:, j] for j in range(k)])
    cx.close("reported correlations", rho, want, 1e-7, 1e-8)
    # first component satisfies the norm bounds; with no sparsity it is the leading singular pair
    cx.ok("first component within its bounds", np.abs(Wx[:, 0]).sum() <= lx * np.sqrt(p) * (1 + 1e-4) and np.linalg.norm(Wx[:, 0]) <= 1 + 1e-8
          and np.abs(Wy[:, 0]).sum() <= ly * np.sqrt(q) * (1 + 1e-4), (np.abs(Wx[:, 0]).sum(), lx * np.sqrt(p)))
    W1, V1, _, _ = m._fit(1., 1., n_comps=1, cca_kws=dict(n_iters=5000, tol=1e-12))
    U, s, Vt = np.linalg.svd(Zx.T @ Zy)
    if s[0] - s[1] > .02 * s[0]:
        cx.close("without sparsity the objective is the leading singular value", W1[:, 0] @ (Zx.T @ Zy) @ V1[:, 0], s[0], 1e-5, 1e-6)
    if xc is not None:
        Wp, Vp, _, _ = m._fit(lx, ly, n_comps=k, pdout=True)
        cx.ok("labelled weights", list(Wp.index) == xc and list(Vp.index) == yc and Wp.shape == (p, k))
        cx.close("labelled weights are the weights", Wp.values, Wx, 1e-10, 1e-10)
    if n > 90:
        ncv = int(rng.integers(2, 4))
        lams = np.sort(rng.uniform(.7, 1., 2))
        Wc, Vc, rf, rt, ls, _ = quiet(m.crossval, ncv, n_comps=k, lambdas=lams)
        folds = np.array_split(np.arange(n), ncv)
        st = lambda A: (A - A.mean(0)) / A.std(0)
        i, j = int(rng.integers(2)), int(rng.integers(ncv))
        tr = np.concatenate([folds[l] for l in range(ncv) if l != j])
        for nm, ix, got in (("training", tr, rf), ("held-out", folds[j], rt)):
            Cc = R(st(Zx[ix]) @ Wc[i, j], st(Zy[ix]) @ Vc[i, j])
            cx.close(f"cross-validated {nm} correlations", got[i, j], np.concatenate([Cc[a:, a] for a in range(k)]), 1e-6, 1e-7)
        quiet(m.fit, ncv, n_comps=k, cv_kws=dict(lambdas=lams))
        di = np.cumsum(np.r_[0, np.arange(k, 1, -1)])
        best = rt[:, :, di].mean((1, 2))
        cx.ok("penalty with the best held-out correlation is selected", m.lam == lams[np.argmax(best)], (m.lam, lams, best))
        Wf = m._fit(m.lam, m.lam, k)[0]
        cx.close("final weights use the selected penalty", m.Wx, Wf, 1e-8, 1e-8)
    np.random.seed(int(rng.integers(1 << 30)))
    B = quiet(m.bootstrap, lx, ly, n_boot=2, n_comps=1)
    P = quiet(m.permutation_test, lx, ly, n_perms=3, n_comps=1)
    cx.ok("resampled correlations", np.all(np.abs(np.asarray(P)) <= 1 + 1e-9) and np.asarray(P).shape == (3, 1) and np.all(np.abs(np.asarray(B[2])) <= 1 + 1e-9))


def conv_ref(W, H):
    n, k, L = W.shape
    t = H.shape[1]
    X = np.zeros((n, t))
    for l in range(L):
        X[:, l:] += W[:, :, l] @ H[:, :t - l]
    return X


def tconv_ref(W, X):
    n, k, L = W.shape
    t = X.shape[1]
    A = np.zeros((k, t))
    for l in range(L):
        A[:, :t - l] += W[:, :, l].T @ X[:, l:]
    return A


def smooth_ref(A, L):
    t = A.shape[1]
    D = (np.abs(np.arange(t)[:, None] - np.arange(t)) < L).astype(float)
    return A @ D


@workload("sequence factorisation", quick=60, thorough=800, shards=2)
def w_nmf(cx):
    rng = cx.rng
    n, k, L = int(rng.integers(1, 9)), int(rng.integers(1, 5)), int(rng.integers(1, 7))
    t = int(rng.integers(3 * L + 4, 60))
    W, H = rng.gamma(1, 1, (n, k, L)), rng.gamma(.5, 1, (k, t))
    X = rng.gamma(1, 1, (n, t)) * (rng.random((n, t)) < .6)
    if rng.random() < .5:
        X = conv_ref(W, H) + .1 * X
    X = X * 10. ** rng.integers(-1, 3)
    cx.case((n, k, L, t > 30), t=t)
    cx.close("reconstruction is the convolution", hfuncs.reconstruct(W, H), conv_ref(W, H), 1e-10, 1e-10)
    f, pen, WtX = hfuncs.seqnmf_objfunc(X, W, H)
    cx.close("objective", f, np.linalg.norm(X - conv_ref(W, H)), 1e-9, 1e-9)
    cx.closen("transposed convolution", WtX, tconv_ref(W, X), 1e-9, 1e-9)
    G = smooth_ref(tconv_ref(W, X), L) @ H.T
    cx.close("cross-orthogonality penalty", pen, np.abs(G - np.diag(np.diag(G))).sum(), 1e-8, 1e-8)
    np.random.seed(int(rng.integers(1 << 30)))
    ns, ni = int(rng.integers(1, 4)), int(rng.integers(2, 25))
    pens = rng.random() < .4
    lam = dict(lambda_=10. ** rng.uniform(-4, 0), lambda_w=10. ** rng.uniform(-4, 0), lambda_h=10. ** rng.uniform(-4, 0)) if pens else \
        dict(lambda_=0., lambda_w=0., lambda_h=0.)
    sh = pens and rng.random() < .5
    X0 = X.copy()
    m = NMFSeq(X, k=k, L=L, n_starts=ns, n_iters=ni, shift_factors=sh, **lam)
    m.fit()
    cx.ok("data are left alone", np.array_equal(X, X0))
    Xp = np.pad(X, ((0, 0), (L, L)))
    for r in range(ns):
        Wr, Hr = m.Ws[..., r], m.Hs[..., r]
        cx.ok("factors are finite and non-negative", np.all(Wr >= 0) and np.all(Hr >= 0) and np.all(np.isfinite(Wr)) and np.all(np.isfinite(Hr)))
        cx.close("reported error is the error of the stored factors", m.f_evals[-1, r], np.linalg.norm(Xp - conv_ref(Wr, Hr)), 1e-8, 1e-8)
        Gr = smooth_ref(tconv_ref(Wr, Xp), L) @ Hr.T
        cx.close("reported penalty is the penalty of the stored factors", m.penalty_evals[-1, r], np.abs(Gr - np.diag(np.diag(Gr))).sum(), 1e-7, 1e-7)
        if not pens:
            fe = .5 * m.f_evals[:, r] ** 2
            slack = 1e-3 * Wr.sum() + 1e-6 * fe[0]
            cx.ok("unpenalised error never rises", np.all(np.diff(fe) <= slack), (fe, slack))
            cx.note("monotone steps", len(fe) - 1)
    # one penalised step follows the gradient of the penalised objective
    m.lambda_, m.lambda_w, m.lambda_h = .3, .2, .4
    Hp = rng.gamma(.5, 1, (k, Xp.shape[1]))
    A = tconv_ref(W, Xp)
    O = 1 - np.eye(k)
    cx.closen("penalty gradient in H", m._get_penaltyH(A, Hp), .3 * O @ smooth_ref(A, L) + .4 * O @ smooth_ref(Hp, L), 1e-9, 1e-9)
    Wc, Hc = W.copy(), np.pad(H, ((0, 0), (2 * L, 2 * L)))
    before = conv_ref(np.pad(Wc, ((0, 0), (0, 0), (0, 0))), Hc)
    Wn, Hn = hfuncs.center_factors(Wc.copy(), Hc.copy())
    # mass that stays inside the window is only moved, together with its factor
    cen = max(np.floor(L / 2), 1)
    for i in range(k):
        p_ = W[:, i].sum(0)
        cm = max(np.floor((p_ * np.arange(1, L + 1)).sum() / p_.sum()), 1)
        s = int(cen - cm)
        want = np.zeros_like(W[:, i])
        for l in range(L):
            if 0 <= l + s < L:
                want[:, l + s] = W[:, i, l]
        cx.close("centred pattern is the shifted pattern", Wn[:, i], want, 1e-12, 1e-12)
        cx.close("its factor moves the other way", Hn[i], np.roll(Hc[i], -s), 1e-12, 1e-12)
    a = rng.normal(size=(3, 9))
    l_, r_ = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    if not (l_ and r_):
        want = np.zeros_like(a)
        if l_:
            want[:, l_:] = a[:, :-l_]
        elif r_:
            want[:, :-r_] = a[:, r_:]
        else:
            want = a
        cx.close("shift", hfuncs.shift(a, ((0, 0), (l_, r_))), want, 0, 0)
        cx.close("one-dimensional shift", hfuncs.shift1d(a[0], l_ - r_), want[0], 0, 0)


@workload("independent components", quick=60, thorough=900, shards=2)
def w_ica(cx):
    rng = cx.rng
    p = int(rng.integers(2, 6))
    k = p if rng.random() < .6 else int(rng.integers(2, p + 1))
    big = rng.random() < .5
    n = 8000 if big else int(rng.integers(60, 600))
    gens = [lambda: rng.laplace(size=n), lambda: rng.uniform(-1, 1, n), lambda: rng.exponential(size=n),
            lambda: rng.choice([-1., 1.], n), lambda: rng.choice([-1., 0, 0, 0, 0, 1.], n)]
    S = np.column_stack([gens[j]() for j in rng.permutation(5)[:p]])
    A = rng.normal(size=(p, p))
    if np.linalg.cond(A) > 50:
        cx.skip("ill-conditioned mixing")
    X = S @ A + rng.normal(size=p)
    alg = str(rng.choice(["fastica", "mle"]))
    fr = rng.random() < .4
    Xi = pd.DataFrame(X, columns=[f"c{i}" for i in range(p)]) if fr else X
    np.random.seed(int(rng.integers(1 << 30)))
    cx.case((p, k, big, alg, fr), n=n)
    m = ICA(Xi, n_comps=k, algorithm=alg)
    m.fit(1000)
    Y, W, Am = np.asarray(m.Y), np.asarray(m.W), np.asarray(m.A)
    Xc = X - X.mean(0)
    cx.close("components are uncorrelated with unit variance", Y.T @ Y / n, np.eye(k), 1e-6, 1e-6)
    cx.closen("components are the projected data", Y, Xc @ W, 1e-8, 1e-8)
    cx.closen("mixing matrix inverts the unmixing matrix", Am @ W, np.eye(k), 1e-6, 1e-6)
    if k == p:
        cx.closen("data are recovered from the components", Y @ Am, Xc, 1e-6, 1e-6)
    else:
        u, V = np.linalg.eigh(Xc.T @ Xc / n)
        V = V[:, ::-1][:, :k]
        cx.closen("components span the leading principal subspace", Y @ Am, Xc @ V @ V.T, 1e-6, 1e-6)
    if fr:
        cx.ok("labels", list(m.W.index) == list(Xi.columns) and list(m.A.columns) == list(Xi.columns) and m.Y.shape == (n, k))
    conv = m.dW_hist[-1] < 1e-6
    cx.note("converged" if conv else "not converged")
    if conv:
        G = np.tanh(Y)
        M = Y.T @ G / n
        b = np.diag(M) - np.mean(1 - G ** 2, axis=0)
        E = M - np.diag(np.diag(M))
        E = E / b if alg == "mle" else E * np.sign(b)[:, None]
        cx.close("converged components solve the estimating equations", E, E.T, 0, 5e-3 * (1 + np.abs(E).max()))
    if big and alg == "fastica":
        cx.ok("converges on well separated sources", conv, m.dW_hist[-3:])
    if big and k == p:
        Ss = (S - S.mean(0)) / S.std(0)
        G = np.tanh(Ss)
        b = np.mean(Ss * G, 0) - np.mean(1 - G ** 2, 0)
        if np.abs(b).min() > .03:
            m.W_init = np.linalg.lstsq(m.Vs, np.linalg.inv(A) / S.std(0), rcond=None)[0]
            m.fit(1000)
            C = np.abs(np.corrcoef(S.T, np.asarray(m.Y).T)[:p, p:])
            cx.ok("sources are a solution", np.all(np.diag(C) > .97), np.round(C, 3))
            cx.note("source recoveries")
