"""C28 distance correlation and the kernel independence criterion."""
import itertools
import numpy as np
import numba
from vlib.mon import workload

from pystatsm.misc import independence_tests as it


def dist(X):
    X = X.reshape(len(X), -1).astype(float)
    return np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))


def dcorr_ref(X, Y, unbiased):
    n = len(X)

    def cen(D):
        if unbiased:
            A = D - D.sum(1, keepdims=True) / (n - 2) - D.sum(0, keepdims=True) / (n - 2) + D.sum() / ((n - 1) * (n - 2))
            np.fill_diagonal(A, 0)
            return A
        return D - D.mean(1, keepdims=True) - D.mean(0, keepdims=True) + D.mean()
    A, B = cen(dist(X)), cen(dist(Y))
    return (A * B).sum() / np.sqrt((A * A).sum() * (B * B).sum())


def gauss(X, bw):
    return np.exp(-dist(X) ** 2 / (2 * bw ** 2))


def hsic_ref(X, Y, bx, by):
    n = len(X)
    K, L = gauss(X, bx), gauss(Y, by)
    H = np.eye(n) - 1 / n
    return np.trace(K @ H @ L @ H) / n ** 2


def medbw(X):
    D = dist(X) ** 2
    b = np.sqrt(np.median(D[np.tril_indices(len(D), -1)]) / 2)
    return b


def sample(rng, small=False):
    n = int(rng.integers(4, 9 if small else 60))
    p, q = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    kind = str(rng.choice(["normal", "ties", "integer", "heavy", "dependent"]))
    X, Y = rng.normal(size=(n, p)), rng.normal(size=(n, q))
    if kind == "ties":
        X, Y = np.round(X), np.round(Y)
    elif kind == "integer":
        X, Y = rng.integers(0, 3, (n, p)), rng.integers(0, 3, (n, q))
    elif kind == "heavy":
        X, Y = rng.standard_cauchy((n, p)), rng.standard_cauchy((n, q))
    elif kind == "dependent":
        Y = np.tanh(X[:, :1]) + .2 * Y
    if p == 1 and rng.random() < .5:
        X = X[:, 0]
    if q == 1 and rng.random() < .5:
        Y = Y[:, 0]
    if rng.random() < .8:
        X, Y = X.astype(float), Y.astype(float)
    if len(np.unique(X.reshape(n, -1), axis=0)) < 3 or len(np.unique(Y.reshape(n, -1), axis=0)) < 3:
        return None
    return X, Y, kind, n, p, q


def rot(rng, X):
    X2 = X.reshape(len(X), -1)
    Q, _ = np.linalg.qr(rng.normal(size=(X2.shape[1],) * 2))
    return X2 @ Q + rng.normal(size=X2.shape[1]) * 3


@workload("distance correlation", quick=120, thorough=3000, shards=1, timeout=800)
def w_dcorr(cx):
    rng = cx.rng
    s = sample(rng)
    if s is None:
        cx.skip("constant sample")
    X, Y, kind, n, p, q = s
    ub = bool(rng.integers(2))
    cx.case((kind, ub, p, q, X.ndim, n < 8), n=n)
    X0, Y0 = X.copy(), Y.copy()
    ref = dcorr_ref(X, Y, ub)
    if not np.isfinite(ref):
        cx.skip("zero distance variance")
    r = it.dcorr(X, Y, ub)
    cx.close("definition", r, ref, 1e-8, 1e-10)
    cx.close("symmetry", it.dcorr(Y, X, ub), r, 1e-9, 1e-11)
    cx.ok("range", abs(r) <= 1 + 1e-9 and (ub or r >= -1e-12), r)
    cx.close("identical samples", it.dcorr(X, X, ub), 1., 1e-9, 0)
    a = 10 ** rng.uniform(-3, 3)
    cx.close("translation, rotation, scale", it.dcorr(a * rot(rng, X), rot(rng, Y), ub), r, 1e-6, 1e-7)
    ix = rng.permutation(n)
    cx.close("rows permuted together", it.dcorr(X[ix], Y[ix], ub), r, 1e-9, 1e-11)
    cx.ok("inputs unchanged", np.array_equal(X, X0) and np.array_equal(Y, Y0))
    cx.close("distances", it.euclidean_distance(X.reshape(n, -1).astype(float)), dist(X), 1e-10, 1e-12)


@workload("kernel criterion", quick=120, thorough=3000, shards=1, timeout=800)
def w_hsic(cx):
    rng = cx.rng
    s = sample(rng)
    if s is None:
        cx.skip("constant sample")
    X, Y, kind, n, p, q = s
    med = rng.random() < .6
    cx.case((kind, med, p, q, X.ndim, n < 8), n=n)
    X0, Y0 = X.copy(), Y.copy()
    if med:
        st, bx, by = it.dhsic(X, Y)
        for b, A in ((bx, X), (by, Y)):
            want = medbw(A)
            if want > 0:
                cx.close("bandwidth is the median heuristic", b, want, 1e-9, 0)
            else:
                cx.ok("bandwidth is positive", b > 0, b)
    else:
        bx, by = (float(10 ** rng.uniform(-1, 1)) for _ in range(2))
        st, b1, b2 = it.dhsic(X, Y, bw=[bx, by])
        cx.ok("bandwidths as given", (b1, b2) == (bx, by))
    cx.close("definition", st, hsic_ref(X, Y, bx, by), 1e-7, 1e-12)
    cx.ok("not negative", st >= -1e-12, st)
    bw = [float(bx), float(by)]
    cx.close("symmetry", it.dhsic(Y, X, bw=bw[::-1])[0], st, 1e-7, 1e-12)
    cx.close("translation and rotation", it.dhsic(rot(rng, X), rot(rng, Y), bw=bw)[0], st, 1e-5, 1e-9)
    ix = rng.permutation(n)
    cx.close("rows permuted together", it.dhsic(X[ix], Y[ix], bw=bw)[0], st, 1e-7, 1e-12)
    if med:
        cx.close("same with the data-driven bandwidth", it.dhsic(X[ix], Y[ix])[0], st, 1e-7, 1e-12)
    cx.ok("inputs unchanged", np.array_equal(X, X0) and np.array_equal(Y, Y0))


def exact(stat, X, Y):
    n = len(X)
    return np.array([stat(X, Y[list(pi)]) for pi in itertools.permutations(range(n))])


@workload("permutation tests", quick=60, thorough=700, shards=1, timeout=800)
def w_perm(cx):
    rng = cx.rng
    s = None
    while s is None:
        s = sample(rng, True)
    X, Y, kind, n, p, q = s
    n = min(n, 6)
    X, Y = X[:n], Y[:n]
    meth = str(rng.choice(["dcorr", "dcorr summary", "dhsic"]))
    ub = bool(rng.integers(2))
    B = int(rng.choice([19, 199, 999]))
    cx.case((meth, kind, ub, B), n=n)
    X0, Y0 = X.copy(), Y.copy()
    if meth == "dhsic":
        if not (medbw(X) > 0 and medbw(Y) > 0):
            cx.skip("tied")
        r, bx, by, sm, pv = it.dhsic_test(X, Y, n_perms=B)
        f = lambda a, b: hsic_ref(a, b, bx, by)
    else:
        f = lambda a, b: dcorr_ref(a, b, ub)
        if not np.isfinite(f(X, Y)) or abs(f(X, Y)) > 1 + 1e-9:
            cx.skip("zero distance variance")
        r, sm, pv = it.dcorr_permutation_test(X, Y, n_perms=B, unbiased=ub, return_samples=meth == "dcorr")
    ref = f(X, Y)
    cx.close("statistic", r, ref, 1e-7, 1e-10)
    cx.ok("p-value in (0, 1]", 0 < pv <= 1, pv)
    cx.ok("p-value is a count", abs(pv * (B + 1) - round(pv * (B + 1))) < 1e-6, (pv, B))
    E = exact(f, X, Y)
    tol = 1e-9 * (1e-3 + abs(ref))
    if sm is not None:
        cx.ok("number of permutations", len(sm) == B)
        near = np.abs(E[:, None] - np.asarray(sm)[None, :]).min(0)
        cx.ok("every permuted statistic is the statistic of some rearrangement of one sample", near.max() < 1e-7, near.max())
        lo = (1 + np.sum(np.abs(sm) > abs(ref) + tol)) / (B + 1)
        hi = (1 + np.sum(np.abs(sm) >= abs(ref) - tol)) / (B + 1)
        cx.ok("p-value counts the permutations at least as extreme", lo - 1e-12 <= pv <= hi + 1e-12, (lo, pv, hi))
        if B == 999 and len(np.unique(np.round(E, 8))) > 20:
            e = np.sort(E)
            F = np.searchsorted(e, np.asarray(sm) + 1e-8, side="right") / len(e)
            G = np.searchsorted(e, np.asarray(sm) - 1e-8, side="left") / len(e)
            cx.ok("all rearrangements are equally likely", abs(((F + G) / 2).mean() - .5) < 6 * .2887 / np.sqrt(B), ((F + G) / 2).mean())
            cx.note("permutation distributions")
    pt = np.mean(np.abs(E) >= abs(ref) - tol)
    sd = np.sqrt(pt * (1 - pt) / B)
    cx.ok("p-value estimates the exact permutation p-value", abs(pv - (1 + B * pt) / (B + 1)) < 6.5 * sd + 2 / (B + 1) + (np.sqrt(20 * pt * (1 - pt)) + 12) / B, (pv, pt, B))
    cx.ok("inputs unchanged", np.array_equal(X, X0) and np.array_equal(Y, Y0))
