"""C05: numerical derivatives against closed-form derivatives; evaluation-point and mutation monitors."""
import numpy as np
from vlib.mon import workload
from pystatsm.utilities import numerical_derivs as nd


class Fn:
    """F_i(x) = sin(W_i.x + c_i) + exp(V_i.x) s + q_i (U_i.x)^2 + (T_i.x)^3, analytic, with exact derivatives."""
    def __init__(self, r, n, m, ish=None, osh=None):
        sc = 1 / np.sqrt(n)
        self.W, self.V, self.U, self.T = (r.normal(size=(m, n)) * sc * k for k in (.8, .4, .6, .5)); self.c = r.normal(size=m); self.q = r.normal(size=m)
        self.ish, self.osh, self.log, self.n, self.m = ish or (n,), osh, [], n, m
    def val(self, x, a=1.0, b=0.0):
        x = np.asarray(x).reshape(-1)
        return a * (np.sin(self.W @ x + self.c) + np.exp(self.V @ x) * .5 + self.q * (self.U @ x) ** 2 + (self.T @ x) ** 3) + b
    def jac(self, x, a=1.0, b=0.0):
        x = np.asarray(x).reshape(-1); return a * (np.cos(self.W @ x + self.c)[:, None] * self.W + (np.exp(self.V @ x) * .5)[:, None] * self.V + (2 * self.q * (self.U @ x))[:, None] * self.U + (3 * (self.T @ x) ** 2)[:, None] * self.T)
    def hess(self, x, a=1.0, b=0.0):
        x = np.asarray(x).reshape(-1); o = lambda k, A: k[:, None, None] * A[:, :, None] * A[:, None, :]
        return a * (o(-np.sin(self.W @ x + self.c), self.W) + o(np.exp(self.V @ x) * .5, self.V) + o(2 * self.q, self.U) + o(6 * (self.T @ x), self.T))
    # recording wrappers
    def vec(self, x, *args): self.log.append((np.array(x).copy(), args)); v = self.val(x, *args); return v if self.osh is None else v.reshape(self.osh)
    def sca(self, x, *args): self.log.append((np.array(x).copy(), args)); return self.val(x, *args)[0]
    def grad(self, x, *args): self.log.append((np.array(x).copy(), args)); return self.jac(x, *args)[0]


def point(r, n, zero_ok=True):
    x = r.normal(size=n); x = np.sign(x) * np.maximum(np.abs(x), .15)
    if zero_ok and r.random() < .5: x[r.integers(n)] = 0.0
    k = r.integers(3)
    if k == 1: x = np.round(x) if zero_ok else x
    return x


def watch(cx, F, x, x0, radius, args):
    cx.ok("point unchanged", np.array_equal(x, x0)); cx.ok("function evaluated", len(F.log) > 0)
    d = max((np.max(np.abs(z.reshape(-1) - x0.reshape(-1))) if z.size else 0) for z, _ in F.log); cx.ok("evaluates only near the point", d <= radius, lambda: f"distance {d}")
    cx.ok("extra arguments passed through", all(len(a) == len(args) and all(u is v for u, v in zip(a, args)) for _, a in F.log)); F.log = []


@workload("scalar functions", quick=160, thorough=2000, shards=4)
def scalar(cx):
    r = cx.rng; n = int(r.integers(1, 7)); F = Fn(r, n, 1); x = point(r, n); args = () if r.random() < .5 else (float(r.uniform(.5, 2)), float(r.normal()))
    cx.case([n, len(args), bool((x == 0).any())], x=x); x0 = x.copy(); g, H = F.jac(x, *args)[0], F.hess(x, *args)[0]; s = 1 + np.abs(F.val(x, *args)).max() + np.abs(H).max() + np.abs(g).max()
    T = lambda nm, got, want, tol: (cx.close(nm, got, want, 0, tol * s), watch(cx, F, x, x0, RAD[0], args))
    RAD = [1e-3]
    T("gradient, forward differences", nd.fo_fc_fd(F.sca, x, args=args), g, 2e-5); T("gradient, central differences", nd.fo_fc_cd(F.sca, x, args=args), g, 1e-8)
    T("gradient, complex step", nd.fo_fc_cs(F.sca, x, args=args), g, 1e-8)
    for nm, f in (("forward", nd.so_fc_fd), ("central", nd.so_fc_cd)):
        e = None if r.random() < .5 else 1e-4
        Hn = f(F.sca, x, eps=e, args=args) if e else f(F.sca, x, args=args); cx.ok("symmetric", np.array_equal(Hn, Hn.T)); T(f"Hessian from values, {nm}", Hn, H, (1e-3 if e else 1e-3) if nm == "forward" else 5e-4 if e is None else 1e-5)
    for nm, f, t in (("forward", nd.so_gc_fd, 1e-4), ("central", nd.so_gc_cd, 1e-7)):
        Hn = f(F.grad, x, args=args); cx.ok("symmetric", np.array_equal(Hn, Hn.T)); T(f"Hessian from gradients, {nm}", Hn, H, t)
    for e in (1e-3, 1e-4):
        RAD[0] = 1e-2; T("gradient, given step", nd.fo_fc_cd(F.sca, x, eps=e, args=args), g, 20 * e * e + 1e-9); T("Hessian, given step", nd.so_gc_cd(F.grad, x, eps=e, args=args), H, 20 * e * e + 1e-9)
    RAD[0] = 1e-2
    if not args:
        RAD[0] = .1; T("gradient, Richardson", np.atleast_2d(nd.grad_approx(F.sca, x))[0], g, 2e-6)
        T("gradient, Richardson", np.atleast_2d(nd.grad_approx(F.sca, x, eps=1e-2, d=1e-2))[0], g, 1e-8)


@workload("vector functions", quick=160, thorough=2000, shards=4)
def vector(cx):
    r = cx.rng; ish = tuple(int(v) for v in r.integers(1, 4, int(r.integers(1, 3)))); osh = tuple(int(v) for v in r.integers(1, 4, int(r.integers(1, 3)))); n, m = int(np.prod(ish)), int(np.prod(osh))
    F = Fn(r, n, m, ish, osh); x = point(r, n).reshape(ish); x0 = x.copy(); args = () if r.random() < .5 else (float(r.uniform(.5, 2)), float(r.normal())); cx.case([ish, osh, len(args)], x=x)
    J, H = F.jac(x, *args), F.hess(x, *args); s = 1 + np.abs(F.val(x, *args)).max() + np.abs(H).max() + np.abs(J).max()
    for nm, f in (("element-wise", nd.jac_approx), ("vectorised", nd.jac_approx4), ("complex step", nd.jac_approx3)):
        cx.close(f"Jacobian, {nm}", f(F.vec, x, args=args), J.reshape(osh + ish), 0, 1e-6 * s); watch(cx, F, x, x0, .05, args)
    M = r.random(osh) < .5
    Jm = nd.jac_approx(F.vec, x, args=args, mask=M); cx.close("Jacobian, masked entries", Jm[M], J.reshape(osh + ish)[M], 0, 1e-6 * s); cx.ok("Jacobian, unmasked entries", not Jm[~M].any()); F.log = []
    if n <= 4:
        Ha = nd.hess_approx(F.vec, x, args=args, d=1e-3, eps=1e-3); cx.close("Hessian", Ha, H.reshape(osh + ish + ish), 0, 1e-4 * s); watch(cx, F, x, x0, .05, args)
        MH = r.random(osh + ish + ish) < .5; Hm = nd.hess_approx(F.vec, x, args=args, d=1e-3, eps=1e-3, mask=MH); cx.close("Hessian, masked entries", Hm[MH], H.reshape(osh + ish + ish)[MH], 0, 1e-4 * s); cx.ok("Hessian, unmasked entries", not Hm[~MH].any()); F.log = []
    F = Fn(r, n, m); x = x.reshape(-1); x0 = x.copy(); J, H = F.jac(x, *args), F.hess(x, *args)
    s = 1 + np.abs(F.val(x, *args)).max() + np.abs(H).max() + np.abs(J).max()
    cx.close("Jacobian, complex step", nd.jac_cs(F.vec, x), F.jac(x), 0, 1e-6 * s); watch(cx, F, x, x0, .05, ()); cx.close("Jacobian, complex step", nd.jac_cs(F.vec, x, args=args), J, 0, 1e-6 * s); watch(cx, F, x, x0, .05, args)
    A = nd.jac_approx2(F.vec, x, eps=1e-2, d=1e-2); cx.close("Jacobian, Richardson", np.asarray(A).reshape(-1, n, m)[-1].T, F.jac(x), 0, 1e-7 * s); watch(cx, F, x, x0, .1, ())
    Hv = nd.hess_cs(F.vec, x); cx.close("Hessian, complex step", Hv, F.hess(x), 0, 1e-6 * s); watch(cx, F, x, x0, .05, ())
    Hs = nd.hess_cs(F.sca, x); cx.close("Hessian, complex step, scalar function", Hs, F.hess(x)[0], 0, 1e-6 * s); watch(cx, F, x, x0, .05, ())
    Hr = nd.hess_approx2(F.vec, x, a_eps=3e-2, r_eps=3e-2, nr=4); cx.close("Hessian, Richardson", Hr, F.hess(x), 0, 1e-5 * s); watch(cx, F, x, x0, .3, ())


@workload("difference weights", quick=60, thorough=500)
def weights(cx):
    r = cx.rng; k = int(r.integers(3, 9)); x = np.sort(r.choice(np.arange(-8, 9), k, replace=False)).astype(float); n = int(r.integers(0, min(k, 5))); cx.case([k, n])
    x0 = float(r.choice([0.0, 0.5, x[0], x[-1]])); W = nd.fd_coefs(x, x0, n, last_col=False)
    import math
    for j in range(n + 1):
        for p in range(k):
            want = 0.0 if p < j else math.factorial(p) / math.factorial(p - j) * x0 ** (p - j); cx.close("exact on polynomials", (W[:, j] * x ** p).sum(), want, 0, 1e-8 * (1 + (np.abs(W[:, j]) * np.abs(x) ** p).sum()))
    cx.close("last column", nd.fd_coefs(x, x0, n), W[:, -1], 0, 0)
    if n >= 1:
        c = nd.fd_coefficients(x, n); cx.close("stencil weights", c, nd.fd_coefs(x, 0.0, n), 1e-5, 1e-6 * np.abs(c).max())
    F = Fn(r, 1, 1); z = r.normal(size=4); f = lambda t: np.array([F.val(np.array([u]))[0] for u in np.atleast_1d(t)]); d1 = np.array([F.jac(np.array([u]))[0, 0] for u in z]); d2 = np.array([F.hess(np.array([u]))[0, 0, 0] for u in z])
    s = 1 + np.abs(f(z)).max() + np.abs(d2).max()
    cx.close("stencil derivative", nd.fd_derivative(f, z), d1, 0, 1e-8 * s); cx.close("stencil second derivative", nd.fd_derivative(f, z, epsilon=1e-2, order=2), d2, 0, 1e-7 * s)
    for o, want in ((1, d1), (2, d2)): cx.close("wide-stencil derivative", nd.finite_diff(f, z, order=o), want, 0, 1e-4 * s)
