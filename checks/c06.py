"""C06: dense linear algebra, covariance and data helpers against their definitions (loops / scipy / delta method)."""
import numpy as np, scipy as sp, scipy.linalg as sl, scipy.sparse as sps, pandas as pd
from vlib.mon import workload, nderiv
from pystatsm.utilities import linalg_operations as lo, cov_utils as cu, data_utils as du


def spd(r, n, ev=1e-2):
    Q, _ = np.linalg.qr(r.normal(size=(n, n))); return (lambda A: (A + A.T) / 2)((Q * np.exp(r.uniform(np.log(ev), 1, n))) @ Q.T)


def corrm(r, n): A = spd(r, n, .1); d = 1 / np.sqrt(np.diag(A)); A = A * d[:, None] * d; np.fill_diagonal(A, 1.0); return A
def tri(cx, L): L = L.toarray() if sps.issparse(L) else L; return cx.ok("factor is triangular", np.array_equal(L, np.tril(L))) and L


@workload("sparse Cholesky objects", quick=160, thorough=2000, shards=3)
def chol(cx):
    r = cx.rng; n = int(r.integers(1, 25)); M = sps.random(n, n, density=float(r.choice([.05, .15, .4])), random_state=int(r.integers(1 << 31))); A = sps.csc_matrix(M @ M.T + sps.diags(r.uniform(.1, 2, n))); k = int(r.integers(1, 4))
    Ad = A.toarray(); beta = float(r.choice([0.0, .5, 2.0])); order = str(r.choice(["default", "natural", "amd"])); kind = int(r.integers(4)); cx.case([n, int(A.nnz), kind, beta, order], nontrivial=A.nnz > n)
    sc = np.linalg.cond(Ad); tol = 1e-13 * max(sc, 100)
    ordk = {} if order == "default" else dict(ordering_method=order)
    if kind == 0: f, W = lo.cholesky(A, beta=beta, **ordk), Ad + beta * np.eye(n)
    elif kind == 1: B = sps.hstack([M, sps.diags(r.uniform(.3, 1, n))]).tocsc(); f, W = lo.cholesky_AAt(B, beta=beta, **ordk), (B @ B.T).toarray() + beta * np.eye(n)
    elif kind == 2: f, W = lo.analyze(A, **ordk), Ad; f.cholesky_inplace(A)
    else: f, W = lo._DenseCholFactor(A, beta=beta), Ad + beta * np.eye(n)
    def verify(f, W, dense):
        P = np.asarray(f.P()); cx.ok("permutation", np.array_equal(np.sort(P), np.arange(n))); ops = r.permutation(7); b, bm = r.normal(size=n), r.normal(size=(n, k)); WP = W[np.ix_(P, P)]
        Lc = np.linalg.cholesky(WP); dg = np.diag(Lc); Lu = Lc / dg
        for o in ops:
            if o == 0: L = f.L().toarray(); cx.ok("factor is triangular", np.array_equal(L, np.tril(L))); cx.closen("L L' is the permuted matrix", L @ L.T, WP, tol)
            elif o == 1: cx.close("D is the LDL diagonal", f.D(), dg ** 2, tol * 10)
            elif o == 2: cx.close("permute", f.apply_P(b), b[P]); cx.close("unpermute", f.apply_Pt(f.apply_P(bm)), bm)
            elif o == 3:
                for bb in (b, bm): cx.closen("solve", W @ f.solve_A(bb), bb, tol * 100)
            elif o == 4:
                for bb in (b, bm):
                    cx.closen("solve L", f.solve_L(bb, use_LDLt_decomposition=False), np.linalg.solve(Lc, bb), tol * 100); cx.closen("solve L'", f.solve_Lt(bb, use_LDLt_decomposition=False), np.linalg.solve(Lc.T, bb), tol * 100)
                    if not dense: cx.closen("solve unit L", f.solve_L(bb), np.linalg.solve(Lu, bb), tol * 100); cx.closen("solve unit L'", f.solve_Lt(bb), np.linalg.solve(Lu.T, bb), tol * 100)
            elif o == 5: s, l = f.slogdet(); cx.close("log determinant", [s, l], [1.0, np.linalg.slogdet(W)[1]], 1e-9, 1e-9)
            else: cx.closen("inverse", f.inv(), np.linalg.inv(W), tol * 100)
    verify(f, W, kind == 3)
    if kind == 2:   # numeric refactorisation history on the same pattern
        for _ in range(2):
            A2 = A.copy(); d = r.uniform(.5, 2, n); A2 = sps.csc_matrix(sps.diags(d) @ A @ sps.diags(d)); f.cholesky_inplace(A2); W2 = A2.toarray(); tol = 1e-13 * max(np.linalg.cond(W2), 100); verify(f, W2, False)


@workload("factor updates", quick=240, thorough=4000, shards=2)
def upd(cx):
    r = cx.rng; n = int(r.integers(1, 9)); A = spd(r, n); cx.case([n], A=A); tol = 1e-13 * max(np.linalg.cond(A), 100)
    L = np.zeros((n, n))
    for i in range(n): L = lo.add_chol_row(A, L, i); cx.closen("appended factor", L[:i + 1, :i + 1] @ L[:i + 1, :i + 1].T, A[:i + 1, :i + 1], tol)
    L, idx = np.linalg.cholesky(A), list(range(n))
    while len(idx) > 1:
        k = int(r.integers(len(idx))); m = len(idx); L = lo.chol_downdate(np.ascontiguousarray(L), k)[:m - 1, :m - 1]; idx.pop(k); cx.closen("downdated factor", L @ L.T, A[np.ix_(idx, idx)], tol * 10); cx.ok("downdated factor lower triangular", np.allclose(L, np.tril(L), 0, 1e-12 * np.abs(L).max()))
    rho = float(r.choice([0, .5, -.5, .95, -.9, r.uniform(-1, 1)])); m = int(r.integers(2, 9)); T = rho ** np.abs(np.subtract.outer(np.arange(m), np.arange(m)))
    La = lo.ar1_chol(m, rho); cx.ok("AR factor lower triangular", np.array_equal(La, np.tril(La))); cx.close("AR factor", La @ La.T, T, 1e-10, 1e-12); cx.close("AR factor from Toeplitz", lo.toeplitz_cholesky_lower_nb(m, T), np.linalg.cholesky(T), 1e-7, 1e-9)
    ph = r.uniform(-.6, .6, 2); ac = np.r_[1, np.cumprod(np.full(m - 1, ph[0]))] * .6 + np.r_[1, np.cumprod(np.full(m - 1, ph[1]))] * .4; cx.close("Toeplitz factor", lo.toeplitz_cholesky_lower_nb(m, sl.toeplitz(ac)), np.linalg.cholesky(sl.toeplitz(ac)), 1e-7, 1e-9)


@workload("least squares and products", quick=240, thorough=4000, shards=2)
def ls(cx):
    r = cx.rng; p = int(r.integers(1, 6)); n = int(r.integers(p, 15 + p)); X = r.normal(size=(n, p)) * 10.0 ** r.integers(-1, 2, p); q = int(r.integers(1, 4)); Y = r.normal(size=(n, q)); y = Y[:, 0]; w = np.exp(r.normal(size=n)); ties = r.random() < .3
    if ties: w = np.ones(n)
    cx.case([n, p, q, bool(ties)], nontrivial=n > p, X=X); c = np.linalg.cond(X * np.sqrt(w)[:, None])
    if c > 1e4: cx.skip("ill-conditioned design")
    b = np.linalg.lstsq(X * np.sqrt(w)[:, None], y * np.sqrt(w), rcond=None)[0]; t = 1e-12 * c * c
    cx.closen("weighted LS (Cholesky)", lo.wls_chol(X, y, w), b, 1e-9 + t); cx.closen("weighted LS (QR)", lo.wls_qr(X, y, w), b, 1e-9 + t); cx.closen("weighted LS (general)", lo.nwls(X, y, w.copy()), b, 1e-9 + t); cx.closen("least squares", lo.lsqr(X, Y), np.linalg.lstsq(X, Y, rcond=None)[0], 1e-9 + t)
    wn = w * np.where(r.random(n) < .15, -.3, 1.0) * np.where(r.random(n) < .1, 0, 1.0); G = (X * wn[:, None]).T @ X; w0, X0 = wn.copy(), X.copy()
    if n > p and np.all(np.linalg.eigvalsh(G / np.sqrt(np.outer(np.diag(X.T @ X), np.diag(X.T @ X)))) > 1e-4): bn = np.linalg.solve(G, X.T @ (wn * y)); cx.closen("weighted LS, negative and zero weights", lo.nwls(X, y, wn), bn, 1e-7); cx.ok("weights untouched", np.array_equal(wn, w0))
    cx.closen("weighted cross product", lo.wcrossp(X, wn), sum(wn[i] * np.outer(X[i], X[i]) for i in range(n)), 1e-12); cx.closen("weighted cross product of two", lo.wdcrossp(X, wn, Y), sum(wn[i] * np.outer(X[i], Y[i]) for i in range(n)), 1e-12)
    Z = r.normal(size=(n, p)); S = r.normal(size=(p, p)); cx.closen("diagonal of A B'", lo.diag_outer_prod(X, Z), np.diag(X @ Z.T), 1e-12); cx.closen("diagonal of X W Y'", lo.wdiag_outer_prod(X, S, Z), np.diag(X @ S @ Z.T), 1e-11)
    D = X if r.random() < .6 else np.c_[X, X[:, 0] * 2]; P = lo.cproject(D); cx.closen("projection idempotent", P @ P, P, 1e-9); cx.closen("projection symmetric", P, P.T, 1e-9); cx.closen("projection fixes columns", P @ D, D, 1e-9); cx.close("projection rank", np.trace(P), float(p), 0, 1e-7)
    cx.ok("inputs untouched", np.array_equal(X, X0))
    M1 = [r.normal(size=tuple(r.integers(1, 4, size=2))) for _ in range(int(r.integers(1, 4)))]; cx.close("block diagonal", lo.gb_diag(*M1), sl.block_diag(*M1)); M3 = [r.normal(size=tuple(r.integers(1, 3, size=3))) for _ in range(2)]; G3 = lo.gb_diag(*M3); a, b3 = M3; cx.ok("block diagonal 3d", np.array_equal(G3[:a.shape[0], :a.shape[1], :a.shape[2]], a) and np.array_equal(G3[a.shape[0]:, a.shape[1]:, a.shape[2]:], b3) and np.isclose(np.sum(np.abs(G3)), np.abs(a).sum() + np.abs(b3).sum()))
    A = sps.random(6, 5, density=.4, random_state=int(r.integers(1 << 31))).tocsr(); cx.close("sparse post-multiplication", lo._sparse_post_mult(r0 := r.normal(size=(3, 6)), A), r0 @ A.toarray())


@workload("spectral helpers", quick=240, thorough=4000, shards=2)
def spec(cx):
    r = cx.rng; n = int(r.integers(1, 7)); A = spd(r, n); rank = n if r.random() < .6 else max(1, n - 1)
    if rank < n: u, V = np.linalg.eigh(A); u[0] = 0; A = (V * u) @ V.T; A = (A + A.T) / 2
    if r.random() < .15: A = np.eye(n) * float(r.uniform(.2, 3)); rank = n
    cx.case([n, rank], A=A); A0 = A.copy()
    u, V = lo.eighs(A); cx.ok("descending eigenvalues", np.all(np.diff(u) <= 0)); cx.closen("eigendecomposition", (V * u) @ V.T, A, 1e-12)
    S = lo.mat_sqrt(A); cx.closen("square root squares back", S @ S, A, 1e-10, 1e-12); cx.closen("square root symmetric", S, S.T, 1e-12); R = lo.inv_sqrt(A)
    cx.closen("inverse square root", R @ A @ R, (V * (u > 1e-12)) @ V.T, 1e-8)
    B = (lambda Z: (Z + Z.T) / 2)(r.normal(size=(n, n))) if r.random() < .8 else A; cx.closen("derivative of the matrix exponential", lo.dmat_exp(B), np.stack([sl.expm_frechet(B, np.eye(n * n)[k].reshape(n, n), compute_expm=False).reshape(-1) for k in range(n * n)], -1), 1e-9)
    a = np.sort(r.uniform(-1, 1, n)) + np.arange(n) * .3; a = r.permutation(a); b = r.normal(size=n); Vd = np.vander(a, increasing=True).T; c = np.linalg.cond(Vd); a0, b0 = a.copy(), b.copy()
    if c < 1e6: cx.closen("Vandermonde solve", Vd @ lo.solve_vander(a, b), b, 1e-13 * c + 1e-10); cx.ok("right-hand side untouched", np.array_equal(b, b0) and np.array_equal(a, a0)); Bi = lo._inv_vander(a); cx.closen("Vandermonde inverse", Bi, np.linalg.inv(Vd).T[::-1], 1e-13 * c + 1e-9)
    X = r.normal(size=(n, 3)); cx.close("diagonal of the vectorised matrix", lo.vdg(X), np.diag(X.reshape(-1, order="F"))); cx.ok("inputs untouched", np.array_equal(A, A0))
    # projections
    P = cu.project_psd(B, tol_e=1e-9); cx.ok("projection is positive semidefinite", np.linalg.eigvalsh((P + P.T) / 2).min() > -1e-11 * (1 + np.abs(B).max())); uB, VB = np.linalg.eigh(B); cx.closen("nearest positive semidefinite", P, (VB * np.maximum(uB, 0)) @ VB.T, 1e-9, 1e-8)
    Pi = cu.project_psd(B, use_transpose=False); cx.closen("inverse variant agrees", Pi, P, 1e-8, 1e-9); M = spd(r, n); cx.closen("members unchanged", cu.project_psd(M), M, 1e-11)
    if n > 1:
        C = corrm(r, n); B0 = C.copy(); cx.closen("correlation matrices unchanged", cu.near_psd(C), C, 1e-9); cx.ok("argument untouched", np.array_equal(C, B0))
        N = C + (lambda Z: np.tril(Z, -1) + np.tril(Z, -1).T)(r.normal(size=(n, n)) * float(r.choice([.1, .4]))); N = np.clip(N, -1, 1); np.fill_diagonal(N, 1); N0 = N.copy(); d = np.exp(r.normal(size=n) * .3)
        X1, info = cu.near_psd(N, n_iters=3000, return_info=True); cx.close("unit diagonal", np.diag(X1), np.ones(n), 0, 0); cx.closen("symmetric", X1, X1.T, 1e-12)
        if info["n_iters"] < 2999:
            cx.note("nearest correlation converged"); cx.ok("nearest correlation positive semidefinite", np.linalg.eigvalsh(X1).min() > -1e-5, lambda: np.linalg.eigvalsh(X1))
            t = float(r.uniform(0, 1)); Y = corrm(r, n); cx.ok("nearer than other correlation matrices", np.linalg.norm(X1 - N) <= np.linalg.norm(X1 + t * (Y - X1) - N) + 1e-4, lambda: (np.linalg.norm(X1 - N), np.linalg.norm(X1 + t * (Y - X1) - N)))
        K = N * d[:, None] * d; X2, i2 = cu.near_psd(K, n_iters=3000, unit_diag=False, keep_diag=True, return_info=True); cx.close("kept diagonal", np.diag(X2), np.diag(K), 1e-14)
        if i2["n_iters"] < 2999: cx.ok("kept-diagonal result positive semidefinite", np.linalg.eigvalsh(X2).min() > -1e-5 * (1 + d.max() ** 2))
        X3 = cu.near_psd(K, unit_diag=False, keep_diag=False); uK, VK = np.linalg.eigh(K); cx.closen("free nearest matrix", X3, (VK * np.maximum(uK, 0)) @ VK.T, 1e-5, 1e-5); cx.ok("argument untouched", np.array_equal(N, N0))


@workload("correlation structures", quick=200, thorough=3000, shards=2)
def cors(cx):
    r = cx.rng; n = int(r.integers(2, 8)); rho = float(r.uniform(-.95, .95)); cx.case([n, round(rho, 2)], rho=rho); I = np.arange(n)
    loop = lambda f, k=n: np.array([[1.0 if i == j else f(min(i, j), max(i, j)) for j in range(k)] for i in range(k)])
    for m in (1, n): cx.close("autoregressive", cu.get_ar1_corr(m, rho), loop(lambda i, j: rho ** (j - i), m), 1e-12, 1e-14)
    c = float(r.uniform(-1 / (n - 1), 1)); cx.close("exchangeable", cu.get_exchangeable_corr(n, c), loop(lambda i, j: c)); cx.raises("impossible exchangeable correlation rejected", ValueError, lambda: cu.get_exchangeable_corr(n, -1.0 / (n - 1) - .01)); cx.raises("impossible exchangeable correlation rejected", ValueError, lambda: cu.get_exchangeable_corr(n, 1.01))
    od = [r.uniform(-.3, .3, n - 1 - k) for k in range(int(r.integers(1, n)))]; cx.close("m-dependent", cu.get_mdependent_corr(od), loop(lambda i, j: od[j - i - 1][i] if j - i <= len(od) else 0.0))
    rh = r.uniform(-.9, .9, n - 1); cx.close("antedependence", cu.get_antedependence1_corr(rh), loop(lambda i, j: np.prod(rh[i:j])), 1e-12, 1e-14)
    k = int(r.integers(1, 3)); A, Psi = r.normal(size=(n, k)), np.exp(r.normal(size=n)); Phi = corrm(r, k); W = lambda Ph: np.array([[sum(A[i, a] * Ph[a, b] * A[j, b] for a in range(k) for b in range(k)) + (Psi[i] if i == j else 0) for j in range(n)] for i in range(n)])
    cx.closen("factor structure", cu.get_factor_cov(A, Psi), W(np.eye(k)), 1e-12); cx.closen("factor structure, correlated", cu.get_factor_cov(A, np.diag(Psi), Phi), W(Phi), 1e-12)
    pts = r.normal(size=(n, 2)); D = sp.spatial.distance.pdist(pts); D2 = sp.spatial.distance.squareform(D); rp, th = float(r.uniform(.05, .95)), float(r.uniform(.3, 3))
    for dd in (D, D2): cx.close("spatial power", cu.get_spatialpower_corr(rp, dd), loop(lambda i, j: rp ** D2[i, j]), 1e-12); cx.close("spatial exponential", cu.get_spatialexp_corr(th, dd), loop(lambda i, j: np.exp(-D2[i, j] / th)), 1e-12); cx.close("spatial Gaussian", cu.get_spatialgaussian_corr(th, dd), loop(lambda i, j: np.exp(-D2[i, j] / th ** 2)), 1e-12)
    cx.close("Toeplitz", cu.get_toeplitz_corr(rh), loop(lambda i, j: rh[j - i - 1]))
    p, q = int(r.integers(1, 5)), int(r.integers(1, 5)); Sx, Sy, kk = spd(r, p), spd(r, q), min(p, q); rc = np.sort(r.uniform(0, .95, kk))[::-1]
    def cc(S, m):
        a, b = S[:p, :p], S[p:, p:]; La, Lb = np.linalg.inv(np.linalg.cholesky(a)), np.linalg.inv(np.linalg.cholesky(b)); s = np.linalg.svd(La @ S[:p, p:] @ Lb.T, compute_uv=False); cx.closen("block kept", a, Sx, 1e-10); cx.closen("block kept", b, Sy, 1e-10); return s
    if p == q: S = cu.get_canvar_corr(Sx, Sy, rc); cx.close("canonical correlations", cc(S, p), rc, 1e-7, 1e-8); cx.closen("symmetric", S, S.T, 1e-12)
    Vx, Vy = r.normal(size=(p, 1)), r.normal(size=(q, 1)); S = cu.get_canvar_corr(Sx, Sy, rc[:1], Vx, Vy); cx.close("canonical correlation with given weights", cc(S, 1), np.r_[rc[0], np.zeros(kk - 1)], 1e-7, 1e-8)
    wx, wy = Vx[:, 0], Vy[:, 0]; cx.close("given weights attain it", wx @ S[:p, p:] @ wy / np.sqrt(wx @ Sx @ wx * (wy @ Sy @ wy)), rc[0], 1e-9)
    u = r.uniform(.1, 2, n); R = cu.get_eig_corr(u.copy(), rng=np.random.default_rng(int(r.integers(1 << 31)))); cx.close("eigenvalues as requested", np.sort(np.linalg.eigvalsh(R)), np.sort(u / u.sum() * n), 1e-7, 1e-9); cx.close("correlation diagonal", np.diag(R), np.ones(n), 1e-7)
    pe, a1, b1, c1 = r.uniform(.1, 1, 4); g = cu.get_eigvals(n, pe, a1, b1, c1); cx.close("eigenvalue profile", g, [((1 - c1) * np.exp(-a1 * (i / (n * pe)) ** 2) + c1 * np.exp(-b1 * i / (n * pe))) ** 2 for i in I], 1e-12)


@workload("exact covariance and moments", quick=160, thorough=2000, shards=2)
def mom(cx):
    r = cx.rng; p = int(r.integers(1, 5)); n = int(r.integers(p + 4, 40)); X = r.normal(size=(n, p)) @ r.normal(size=(p, p)) + r.normal(size=p) * 2; cx.case([n, p], X=X); X0 = X.copy(); Xc = X - X.mean(0); S = Xc.T @ Xc / n
    if np.linalg.cond(S) > 1e8: cx.skip("ill-conditioned sample")
    W = cu._whiten(X); cx.closen("whitened covariance", np.cov(W.T, bias=True).reshape(p, p), np.eye(p), 1e-8); T = spd(r, p); Q = cu._svd_cov_transform(T); cx.closen("covariance root", Q @ Q.T, T, 1e-11)
    mu = r.normal(size=p); E = cu._exact_cov(Xc, mu, T); cx.closen("exact covariance", np.cov(E.T, bias=True).reshape(p, p), T, 1e-8); cx.closen("exact mean for centred data", E.mean(0), mu, 1e-8, 1e-9)
    cx.closen("marginal kurtosis", cu.multivar_marginal_kurtosis(X), (Xc ** 4).mean(0) / (Xc ** 2).mean(0) ** 2 / 3, 1e-10)
    # asymptotic covariance of the sample correlations: delta method from the covariance of S (normal theory: entries s_ik s_jl + s_il s_jk)
    S = spd(r, max(p, 2)); p2 = S.shape[0]; q = p2 * p2; V = np.array([[S[i, k] * S[j, l] + S[i, l] * S[j, k] for l in range(p2) for k in range(p2)] for j in range(p2) for i in range(p2)])
    cf = lambda s: (lambda M: M / np.sqrt(np.outer(np.diag(M), np.diag(M))))(s.reshape(p2, p2, order="F")).reshape(-1, order="F")
    J, _ = nderiv(cf, S.reshape(-1, order="F"), scale=.3 * np.sqrt(np.outer(np.diag(S), np.diag(S))).reshape(-1)); want = J @ V @ J.T
    # S is symmetric: project both sides on symmetric matrices
    K = np.zeros((q, q))
    for i in range(p2):
        for j in range(p2): K[i * p2 + j, j * p2 + i] = 1
    Ns = (np.eye(q) + K) / 2
    cx.closen("covariance of correlations (general)", Ns @ cu.corr_acov_neudecker(S) @ Ns, Ns @ want @ Ns, 1e-6, 1e-7); cx.closen("covariance of correlations (elliptical form)", Ns @ (b := cu.corr_acov_browne(S)) @ Ns, Ns @ want @ Ns, 1e-6, 1e-7); cx.closen("symmetric", b, b.T, 1e-10)
    k = float(r.uniform(.7, 3)); Vk = k * V + (k - 1) * np.outer(S.reshape(-1, order="F"), S.reshape(-1, order="F")); cx.closen("covariance of correlations, kurtosis", Ns @ cu.corr_acov_browne(S, k) @ Ns, Ns @ (J @ Vk @ J.T) @ Ns, 1e-6, 1e-7)
    il = [(i, j) for j in range(p2) for i in range(j, p2)]; Vs = np.array([[S[i, k_] * S[j, l] + S[i, l] * S[j, k_] for (k_, l) in il] for (i, j) in il]); cx.closen("covariance of covariances, normal", cu.cov_sample_cov(S=S), Vs, 1e-10)
    kt = r.uniform(.6, 2.5, p2); a = lambda i, j: (np.sqrt(kt[i]) + np.sqrt(kt[j])) / 2
    Vh = np.array([[a(i, j) * a(k_, l) * S[i, j] * S[k_, l] + a(i, k_) * a(j, l) * S[i, k_] * S[j, l] + a(i, l) * a(j, k_) * S[i, l] * S[j, k_] - S[i, j] * S[k_, l] for (k_, l) in il] for (i, j) in il])
    cx.closen("covariance of covariances, heterogeneous kurtosis", cu.cov_sample_cov(S=S, kurt=kt), Vh, 1e-9); cx.closen("excess kurtosis form", cu.cov_sample_cov(S=S, excess_kurt=3 * kt - 3), Vh, 1e-9)
    cx.closen("from data", cu.cov_sample_cov(X=X), cu.cov_sample_cov(S=np.cov(X.T).reshape(p, p), kurt=cu.multivar_marginal_kurtosis(X)), 1e-9); cx.ok("data untouched", np.array_equal(X, X0))


@workload("data helpers", quick=240, thorough=4000, shards=2)
def dat(cx):
    r = cx.rng; p, q = int(r.integers(1, 5)), int(r.integers(1, 4)); n = int(r.integers(3, 30)); off = float(r.choice([0, 0, 1e3])); X = r.normal(size=(n, p)) * np.exp(r.normal(size=p)) + off; Y = r.normal(size=(n, q)) + r.normal(size=(n, 1)); cx.case([n, p, q, off], X=X); X0 = X.copy()
    m, s = X.mean(0), X.std(0); Xc, Xs = X - m, (X - m) / s; t = 1e-9 if off == 0 else 1e-7; XF = np.asfortranarray(X) if r.random() < .3 else X
    cx.close("column sums", du._col_sum(X), X.sum(0), 1e-10, 1e-10); cx.close("row sums", du._row_sum(X), X.sum(1), 1e-10, 1e-10); cx.close("column means", du._col_mean(X), m, 1e-10, 1e-10); cx.close("column deviations", du._col_std(X), s, t)
    cx.close("centre", du.center(XF), Xc, 0, t); cx.close("standardise", du.standardize(X), X / s, t, t); cx.close("centre and standardise", du.csd(X), Xs, t, t); A, B, C = du._csd(X, return_stats=True); cx.close("centre and standardise", A, Xs, t, t); cx.close("statistics", np.r_[B, C], np.r_[m, s], t, t); cx.close("centre and standardise", du._csd(X), Xs, t, t)
    Sx = Xc.T @ Xc / n; cx.closen("covariance", du.cov(X), Sx, t); cx.closen("covariance, compiled", du.cov_nb(X), Sx, t); cx.closen("cross covariance", du.cov(X, Y), Xc.T @ (Y - Y.mean(0)) / n, t); cx.close("correlation", du.corr(X), Xs.T @ Xs / n, t, t); cx.close("correlation, compiled", du.corr_nb(X), Xs.T @ Xs / n, t, t); cx.close("cross correlation", du.corr(X, Y), Xs.T @ ((Y - Y.mean(0)) / Y.std(0)) / n, t, t)
    R = spd(r, n); N = du.normalize_xtrx(Y, R); cx.close("normalised", np.diag(N.T @ R @ N), np.ones(q), 1e-9); cx.ok("only columns rescaled", np.allclose(N / Y, (N / Y)[0], 1e-9))
    cx.close("sums of squares", du.ssq(X, 0), (X ** 2).sum(0), 1e-10); cx.close("sums of squares", du.ssq(X, 1), (X ** 2).sum(1), 1e-10); cx.close("sum of squares, vector", du.ssq(X[:, 0]), [(X[:, 0] ** 2).sum()], 1e-10)
    M = spd(r, p); d = r.normal(size=p); want = np.diag(d) @ M @ np.diag(d); M0 = M.copy(); cx.close("diagonal scaling", du.scale_diag(M, d), want, 1e-12, 1e-14); cx.close("diagonal scaling", du.scale_dg(M, d), want, 1e-12, 1e-14); cx.ok("argument untouched", np.array_equal(M, M0)); out = np.empty_like(M); du.scale_dg(M, d, out=out); cx.close("diagonal scaling to output", out, want, 1e-12, 1e-14); cx.close("normalised diagonal", np.diag(du.norm_diag(M)), np.ones(p), 1e-12); Mi = M.copy(); du.scale_dg(Mi, d, inplace=True); cx.close("diagonal scaling in place", Mi, want, 1e-12, 1e-14)
    Fv = du.flip_signs(Y.copy()); j = np.abs(Y).argmax(0); cx.ok("largest entry positive", np.all(Fv[j, np.arange(q)] > 0)); cx.close("only signs change", np.abs(Fv), np.abs(Y))
    ax = int(r.integers(2)); ub = bool(r.integers(2)); mn, va = du.welford_variance(X, axis=ax, unbiased=ub)
    if X.shape[ax] > 1: cx.close("running mean", mn, X.mean(ax), 1e-9); cx.close("running variance", va, X.var(ax, ddof=int(ub)), t * 10, 1e-12)
    T3 = r.normal(size=(2 + int(r.integers(3)), 2 + int(r.integers(3)), 2 + int(r.integers(3)))); a3 = int(r.integers(3)); mn, va = du.welford_variance(T3, axis=a3); cx.close("running mean, 3d", mn, T3.mean(a3), 1e-9, 1e-12); cx.close("running variance, 3d", va, T3.var(a3), 1e-9)
    mn, cv = du.welford_cov(X, unbiased=ub); cx.close("running mean", mn, m, 1e-9, 1e-11); cx.closen("running covariance", cv, np.cov(X.T, ddof=int(ub)).reshape(p, p), t * 10); mn, cv = du.welford_cov(X, Y, unbiased=ub); cx.closen("running cross covariance", cv, Xc.T @ (Y - Y.mean(0)) / (n - ub), t * 10); cx.close("running means of both", np.sort(mn), np.sort(np.r_[m, Y.mean(0)]), 1e-9, 1e-11)
    k = int(r.integers(1, n)); i = du.extremal_indices(Y[:, 0], k); cx.ok("largest entries", np.array_equal(np.sort(i), np.sort(np.argsort(Y[:, 0])[-k:]))); i = du.extremal_indices(Y[:, 0], k, largest=False); cx.ok("smallest entries", np.array_equal(np.sort(i), np.sort(np.argsort(Y[:, 0])[:k]))); cx.ok("data untouched", np.array_equal(X, X0))
    i = du.extremal_indices(Y.T, k, axis=-1); cx.ok("largest entries by row", np.array_equal(np.sort(i, -1), np.sort(np.argsort(Y.T, -1)[:, -k:], -1)))


@workload("categorical helpers", quick=200, thorough=3000, shards=1)
def cat(cx):
    r = cx.rng; n, k = int(r.integers(1, 25)), int(r.integers(1, 6)); kind = int(r.integers(2)); lab = np.array(["b", "a", "dd", "c", "e"])[r.permutation(5)[:k]] if kind else r.permutation(np.arange(-2, 8))[:k]; x = lab[r.integers(0, k, n)]; cx.case([n, k, kind], x=x); lv = np.unique(x); want = (x[:, None] == lv[None]).astype(float)
    cx.close("indicator matrix", du.dummy_encode(x), want); ri, ci, nc = du._dummy_encode(x); cx.ok("indicator coordinates", nc == len(lv) and np.array_equal(np.sort(ri), np.arange(n)) and all(lv[c] == x[i] for i, c in zip(ri, ci)))
    ct = r.permutation(lv); cx.close("indicator matrix, given order", du.dummy_encode(x, ct), (x[:, None] == ct[None]).astype(float))
    if not kind: xi = x.astype(float); cx.close("compiled indicator", du._dummy(xi), want); cx.close("compiled indicator, reference dropped", du._dummy(xi, False), want[:, :-1]); cx.close("indicator", du.dummy(xi), want); cx.close("indicator of a series", du.dummy(pd.Series(xi)), want); cx.close("indicator of a column", du.dummy(xi[:, None]), want)
    sh = tuple(r.integers(1, 4, size=int(r.integers(1, 4)))); tab = r.integers(0, 4, size=sh); arr = du.expand_crosstab(tab); cx.ok("expanded size", arr.shape == (tab.sum(), tab.ndim)); cx.ok("expanded counts", all((arr == np.array(ii)).all(1).sum() == tab[ii] for ii in np.ndindex(sh)))
    z = np.column_stack([r.integers(0, s_ + 1, size=n) * (1 if r.random() < .5 else 2) for s_ in (1, 2, int(r.integers(0, 3)))][:int(r.integers(2, 4))]); c, L = du.cross_tabulate(z); cx.ok("levels", all(np.array_equal(l, np.unique(z[:, j])) for j, l in enumerate(L))); cx.ok("counts", all((z == np.array([L[j][i] for j, i in enumerate(ii)])).all(1).sum() == c[ii] for ii in np.ndindex(c.shape)))
    cd = int(r.integers(-1, z.shape[1])); F, rows, cols, _ = du.flat_cross_tabulate(z, cd); o = [j for j in range(z.shape[1]) if j != cd % z.shape[1]]; cx.ok("flat labels", np.array_equal(cols, np.unique(z[:, cd])) and F.shape == (len(rows), len(cols))); cx.ok("flat counts", all(F[a, b] == ((z[:, o] == rows[a]).all(1) & (z[:, cd] == cols[b])).sum() for a in range(len(rows)) for b in range(len(cols))))
    for obj in (x, x[:, None], pd.Series(x, name="nm"), pd.DataFrame({"u": x, "v": x})): V, co, ix, isp = du._check_type(obj); w = np.asarray(obj); cx.ok("typed values", V.ndim == 2 and np.array_equal(V.reshape(w.shape), w) and len(co) == V.shape[1] and len(ix) == n and isp == (not isinstance(obj, np.ndarray)))
    a = r.normal(size=(n, 1)); cx.close("shape reduced", du._check_shape(a), a[:, 0]); cx.close("shape raised", du._check_shape(a[:, 0], 2), a); cx.close("shape kept", du._check_shape(a, 2), a)
    m = int(r.integers(2, 15)); y = r.normal(size=m); b = float(r.choice([0, .3])); s = np.sign(y - b); chg = [i for i in range(1, m) if s[i] != s[i - 1]]
    for nth in (1, 2, 3):
        if len(chg) >= nth: cx.ok("sign change located", du.sign_change(y, nth, b) == chg[nth - 1] - 1, lambda: (nth, y, du.sign_change(y, nth, b)))
    y2 = np.column_stack([y, -y]); 
    if chg: cx.ok("sign change by column", np.array_equal(du.sign_change(y2), [[i for i in range(1, m) if np.sign(c_[i]) != np.sign(c_[i - 1])][0] - 1 for c_ in (y, -y)]) if len([i for i in range(1, m) if np.sign(y[i]) != np.sign(y[i - 1])]) else True)
