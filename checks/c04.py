"""C04: parameter transforms: inverse pairs, valid images, exact derivatives."""
import numpy as np
from vlib.mon import workload, nderiv
from pystatsm.utilities import param_transforms as pt, cov_transform as ct, unconstrained_chol as uc, dchol as dc, linalg_operations as lo


def vech(A): j, i = np.triu_indices(A.shape[0]); return A[i, j]
def vecl(A): j, i = np.triu_indices(A.shape[0], 1); return A[i, j]
def invech(v, n):
    A = np.zeros((n, n)); j, i = np.triu_indices(n); A[i, j] = v; A[j, i] = v; return A
def invecl(v, n):
    A = np.eye(n); j, i = np.triu_indices(n, 1); A[i, j] = v; A[j, i] = v; return A


def corr(r, n, kind):
    if kind == "strong":
        f = r.normal(size=(n, 1)) + np.sign(r.normal(size=(n, 1))); S = f @ f.T + np.diag(r.uniform(.05, .3, n))
    elif kind == "identity": return np.eye(n)
    else: B = r.normal(size=(n, n + (0 if kind == "tight" else 3))); S = B @ B.T + .05 * np.eye(n)
    d = np.sqrt(np.diag(S)); return S / np.outer(d, d)


def cov(r, n, kind):
    R = corr(r, n, kind); s = np.exp(r.normal(size=n) * (1.0 if kind != "scales" else 3.0)); return R * np.outer(s, s)


KINDS = ["usual", "strong", "tight", "scales", "identity"]


def pair(cx, nm, T, x, valid=None, rt=1e-9, hess=True, dtol=1e-5, xs=None, ys=None):
    """x in the constrained domain; T has _fwd/_rvs and derivatives in both directions."""
    x0 = x.copy(); y = np.asarray(T._fwd(x)); sc = np.maximum(np.abs(x), 1e-3) if xs is None else xs
    cx.ok(f"{nm}: arguments unchanged", np.array_equal(x, x0)); y0 = y.copy()
    cx.close(f"{nm}: backward after forward", T._rvs(y.copy()), x, rt, rt * np.max(np.abs(x)) if xs is None else rt)
    y2 = y + .3 * cx.rng.normal(size=y.shape) if valid else None
    if valid:
        xr = np.asarray(T._rvs(y2.copy())); cx.ok(f"{nm}: image is valid", valid(xr)); cx.close(f"{nm}: forward after backward", T._fwd(xr.copy()), y2, 1e-7, 1e-8)
    if cx.it % 3 == 0:
        b = np.stack([x, x])
        if hasattr(T, "fwd"):
            cx.close(f"{nm}: stacked evaluation", T.fwd(b)[1], y, 1e-12, 1e-14); cx.close(f"{nm}: stacked evaluation", T.jac_fwd(b)[0], T._jac_fwd(x), 1e-12, 1e-14)
    h = .02 if xs is None else .02
    F, B = lambda t: np.asarray(T._fwd(t)), lambda t: np.asarray(T._rvs(t))
    Jf, Jb = np.asarray(T._jac_fwd(x.copy())), np.asarray(T._jac_rvs(y.copy()))
    n = len(x); ys = np.ones(n) if ys is None else ys
    cx.close(f"{nm}: Jacobians are inverse", (Jf * sc[None]) @ (Jb / sc[:, None]), np.eye(n), 0, 1e-6)
    step = min(4e-3, .05 * DIST[0])
    cx.deriv(f"{nm}: forward Jacobian", Jf * sc[None], lambda t: F(x + t * sc), np.zeros(n), rtol=dtol, scale=np.ones(n), h=step)
    cx.deriv(f"{nm}: backward Jacobian", Jb / sc[:, None] * ys[None], lambda t: B(y + t * ys) / sc, np.zeros(n), rtol=dtol, scale=np.ones(n), h=4e-3)
    if hess:
        cx.deriv(f"{nm}: forward Hessian", np.asarray(T._hess_fwd(x.copy())) * sc[None, :, None] * sc[None, None], lambda t: np.asarray(T._jac_fwd(x + t * sc)) * sc[None], np.zeros(n), rtol=dtol, scale=np.ones(n), h=step)
        cx.deriv(f"{nm}: backward Hessian", np.asarray(T._hess_rvs(y.copy())) / sc[:, None, None] * ys[None, :, None] * ys[None, None], lambda t: np.asarray(T._jac_rvs(y + t * ys)) / sc[:, None] * ys[None], np.zeros(n), rtol=dtol, scale=np.ones(n), h=4e-3)
    cx.ok(f"{nm}: arguments unchanged", np.array_equal(x, x0) and np.array_equal(y, y0))


DIST = [1.0]


def gap(R):
    """How far entries may move (relative) before R stops being positive definite."""
    DIST[0] = min(1.0, np.linalg.eigvalsh(R)[0]) / 2


spd = lambda n: lambda v: np.linalg.eigvalsh(invech(v, n))[0] > 0
spc = lambda n: lambda v: np.linalg.eigvalsh(invecl(v, n))[0] > 0


@workload("covariance transforms", quick=60, thorough=600, shards=8)
def covs(cx):
    r = cx.rng; n = 2 + cx.it % 4; kind = KINDS[r.integers(5)]; mod = [pt, ct][r.integers(2)]; S = cov(r, n, kind); d = np.sqrt(np.diag(S)); gap(S / np.outer(d, d))
    sc = vech(np.outer(d, d)); cx.case([n, kind, mod.__name__[-12:]], cov=vech(S))
    pair(cx, "covariance to correlation", mod.CovCorr(n), vech(S), None, xs=sc, ys=np.where(vech(np.eye(n)) == 1, sc, 1.0))
    T = mod.CholeskyCov(n); pair(cx, "covariance to unconstrained", T, vech(S), spd(n), xs=sc, hess=True)
    pair(cx, "log-scale", mod.LogScale(n), vech(S), None, xs=sc)
    off = mod.OffDiagMask(mod.CorrCholesky(n)); R = S / np.outer(d, d); z = vech(R); z[vech(np.eye(n)) == 1] = np.diag(S); s2 = np.where(vech(np.eye(n)) == 1, z, 1.0)
    pair(cx, "masked", off, z, None, xs=s2)
    if n > 2: cx.note("dimension above 2")


@workload("one-dimensional covariance", quick=8, thorough=40)
def one(cx):
    r = cx.rng; v = np.exp(r.normal(size=1) * 3); DIST[0] = .5; cx.case(["1", round(float(v[0]), 3)])
    for mod in (pt, ct): pair(cx, "covariance to unconstrained", mod.CholeskyCov(1), v, lambda x: x[0] > 0, xs=v)


@workload("correlation transforms", quick=60, thorough=600, shards=8)
def corrs(cx):
    r = cx.rng; n = 2 + cx.it % 4; kind = KINDS[r.integers(5)]; mod = [pt, ct][r.integers(2)]; R = corr(r, n, kind); gap(R); x = vecl(R); one_ = np.ones(len(x)); cx.case([n, kind, mod.__name__[-12:]], corr=x)
    pair(cx, "correlation to Cholesky", mod.CorrCholesky(n), x, None, xs=one_)
    L = np.linalg.cholesky(R); cx.close("Cholesky entries", mod.CorrCholesky(n)._fwd(x), vecl(L), 1e-10, 1e-12)
    z = vecl(L); DIST[0] = float(np.min(np.diag(L)) ** 2) / 2
    pair(cx, "Cholesky to unconstrained", mod.UnconstrainedCholeskyCorr(n), z, None, xs=one_)
    if mod is pt:
        class M: _fwd, _rvs, _jac_fwd, _jac_rvs, _hess_fwd, _hess_rvs = map(staticmethod, (uc.fwd, uc.rvs, uc.jac_fwd, uc.jac_rvs, uc.hess_fwd, uc.hess_rvs))
        pair(cx, "Cholesky to partial correlations", M, z, None, xs=one_)
    lh = lo.LHV(n); z2 = z; pair(cx, "row-normalised half-vector", Swap(lh), z2, None, xs=one_)
    nrm = lo.lhv_row_norms(lh._rvs(z.copy())); L2 = np.zeros((n, n)); j, i = np.triu_indices(n, 1); L2[i, j] = lh._rvs(z.copy()); cx.close("row norms", nrm, np.sqrt((L2 ** 2).sum(1) + 1), 1e-10, 0)


class Swap:
    def __init__(self, t): self.t = t
    def _fwd(self, x): return self.t._rvs(x)
    def _rvs(self, x): return self.t._fwd(x)
    def _jac_fwd(self, x): return self.t._jac_rvs(x)
    def _jac_rvs(self, x): return self.t._jac_fwd(x)
    def _hess_fwd(self, x): return self.t._hess_rvs(x)
    def _hess_rvs(self, x): return self.t._hess_fwd(x)


def vector_case(r, q):
    which = r.integers(4)
    if which == 0: x = np.cumsum(np.exp(r.normal(size=q) * 1.5 - r.choice([0, 0, 8, 12], q))) + r.normal() * 3; return "ordered", pt.OrderedTransform(), x, lambda v: np.all(np.diff(v) > 0)
    if which == 1: return "log", pt.LogTransform(), np.exp(r.normal(size=q) * 2), lambda v: np.all(v > 0)
    if which == 2: return "tanh", pt.TanhTransform(), np.tanh(r.normal(size=q)), lambda v: np.all(np.abs(v) < 1)
    return "identity", pt.IdentityTransform(), r.normal(size=q), lambda v: True


def room(nm, x):
    if nm == "ordered": return np.full(len(x), min(1.0, np.min(np.diff(x)) if len(x) > 1 else 1.0))
    if nm == "log": return x
    if nm == "tanh": return 1 - np.abs(x)
    return np.ones(len(x))


@workload("vector transforms", quick=60, thorough=600, shards=4)
def vectors(cx):
    r = cx.rng; q = int(r.integers(1, 7)); nm, T, x, ok = vector_case(r, q); DIST[0] = .5; cx.case([nm, q], x=x)
    pair(cx, nm, T, x, ok, xs=room(nm, x), rt=1e-8)


@workload("composite transforms", quick=40, thorough=400, shards=4)
def composite(cx):
    r = cx.rng; parts, idx, xs, sc, pos = [], [], [], [], 0; style = ["sizes", "ranges", "slices", "gaps"][r.integers(4)]; DIST[0] = 1.0; dist = 1.0
    for _ in range(int(r.integers(1, 4))):
        if style == "gaps" and r.random() < .6: g = int(r.integers(1, 3)); xs.append(r.normal(size=g)); sc.append(np.ones(g)); pos += g
        if r.random() < .5:
            n = int(r.integers(1, 4)); S = cov(r, n, "usual"); d = np.sqrt(np.diag(S)); gap(S / np.outer(d, d)); dist = min(dist, DIST[0]); x = vech(S); T = pt.CholeskyCov(n); s = vech(np.outer(d, d))
        else:
            nm, T, x, _ = vector_case(r, int(r.integers(1, 4))); s = room(nm, x); dist = min(dist, .5)
        parts.append(T); xs.append(x); sc.append(s); k = len(x)
        idx.append(k if style == "sizes" else slice(pos, pos + k) if style == "slices" else (pos, pos + k)); pos += k
    if style == "gaps" and r.random() < .5: xs.append(r.normal(size=2)); sc.append(np.ones(2))
    x, s = np.concatenate(xs), np.concatenate(sc); DIST[0] = dist; C = pt.CombinedTransform(parts, idx); cx.case([style, [type(p).__name__ for p in parts], len(x)])
    y = C._fwd(x.copy()); cx.close("combined: parts applied in place", y, apply_parts(parts, idx, x, "_fwd"), 1e-12, 1e-14)
    pair(cx, "combined", C, x, None, xs=s, hess=style != "gaps" or True)
    k = int(r.integers(2, 5)); z = np.tanh(r.normal(size=k) * .5) * .8 + 1.5
    chain = [pt.LogTransform(), pt.TanhTransform(), pt.IdentityTransform()][: int(r.integers(1, 4))]; z = np.exp(r.uniform(-.7, .7, k)); DIST[0] = .3
    pair(cx, "composed", pt.ComposedTransform(chain), z, None, xs=np.full(k, .2))


def apply_parts(parts, idx, x, m):
    out, pos = x.copy(), 0
    for T, i in zip(parts, idx):
        a, b = (pos, pos + i) if isinstance(i, int) else (i.start, i.stop) if isinstance(i, slice) else i
        out[a:b] = getattr(T, m)(x[a:b].copy()); pos = b
    return out


@workload("Cholesky derivative", quick=24, thorough=200, shards=2)
def chol(cx):
    r = cx.rng; n = 1 + cx.it % 5; S = cov(r, n, ["usual", "strong", "tight"][r.integers(3)]); dM, d2M = dc.unit_matrices(n); k0 = (S.copy(), dM.copy(), d2M.copy())
    d = np.sqrt(np.diag(S)); R = S / np.outer(d, d); cx.case([n], S=S); gap(R); m = n * (n + 1) // 2
    L, dL, d2L = dc.dchol(R.copy(), dM.copy(), d2M.copy(), order=2); low = np.tril_indices(n)
    cx.close("factor", np.tril(L), np.linalg.cholesky(R), 1e-9, 1e-10); st = .05 * DIST[0]
    f = lambda v: np.linalg.cholesky(invech(v, n))[low]; x = vech(R)
    cx.deriv("first derivative", dL[low], f, x, rtol=1e-5, scale=np.ones(m), h=min(4e-3, st))
    g = lambda v: dc.dchol(invech(v, n), dM.copy(), d2M.copy(), order=1)[1][low]
    cx.deriv("second derivative", d2L[low], g, x, rtol=1e-5, scale=np.ones(m), h=min(4e-3, st))
