"""C18: rotation criteria, parameterisations, solvers, identification constraints and alignment."""
import itertools, numpy as np
from vlib.mon import workload
from pystatsm.pyfa import rotation as r1, align_loadings as al1
from pystatsm.pyfa2 import criterion as cr, rotation as r2, solvers as so, cayley as cy, identification as idn, alignment as al2

METH = ("varimax", "quartimax", "equamax", "parsimax")
def kappa(nm, p, m): return dict(quartimax=0., varimax=1 / p, equamax=m / (2 * p), parsimax=(m - 1) / (p + m - 2), parsimony=1.)[nm]


def q_cf(L, k):   # Crawford-Ferguson family, by its definition (cross products within rows / within columns)
    B = L ** 2; p, m = L.shape; row = sum(B[:, j] @ B[:, l] for j in range(m) for l in range(m) if j != l); col = sum(B[i] @ B[k_] for i in range(p) for k_ in range(p) if i != k_); return ((1 - k) * row + k * col) / 4


def q_ob(L, g):   # oblimin family
    B = L ** 2; p, m = L.shape; return sum(B[:, j] @ B[:, l] - g / p * B[:, j].sum() * B[:, l].sum() for j in range(m) for l in range(m) if j != l) / 4


def ngrad(f, X, h=None):
    G = np.zeros_like(X); h = 1e-3 * np.abs(X).max()
    for ix in np.ndindex(X.shape): E = np.zeros_like(X); E[ix] = h; G[ix] = (45 * (f(X + E) - f(X - E)) - 9 * (f(X + 2 * E) - f(X - 2 * E)) + f(X + 3 * E) - f(X - 3 * E)) / (60 * h)
    return G


def low(A): return np.concatenate([A[j + 1:, j] for j in range(len(A))])
def offd(A): m = len(A); return np.array([A[i, j] for j in range(m) for i in range(m) if i != j])
def rorth(r, m): Q, R = np.linalg.qr(r.normal(size=(m, m))); Q = Q * np.sign(np.diag(R)); Q[:, 0] *= np.sign(np.linalg.det(Q)); return Q
def robl(r, m):
    while True:
        T = np.eye(m) + .35 * r.normal(size=(m, m)); T = T / np.sqrt((T ** 2).sum(0))
        if np.linalg.cond(T) < 30: return T


def loads(r, structured=True):
    m = int(r.integers(2, 5)); p = int(r.integers(m + 2, 10)); L = r.normal(size=(p, m)) * .15
    if structured:
        for i in range(p): L[i, i % m] += r.choice([-1, 1]) * r.uniform(.5, .95)
    else: L = r.normal(size=(p, m)) * .6
    return L, p, m


@workload("criteria", quick=400, thorough=8000)
def crit(cx):
    r = cx.rng; L, p, m = loads(r, bool(r.integers(2))); L = L * 10. ** r.integers(-1, 3); nm = str(r.choice(METH)); k = kappa(nm, p, m); cx.case((nm, p, m, round(np.log10(np.abs(L).max())))); s = np.abs(L).max(); q = q_cf(L, k); G = ngrad(lambda A: q_cf(A, k), L); L0 = L.copy(); ga = np.abs(G).max()
    c2 = cr.GCFCriterion(nm, p, m); c1 = r1.GeneralizedCrawfordFerguson(L, nm, "ortho"); g0 = r1.get_gamma_cf(nm, p, m); f0, G0 = r1.vgq_cf(L, g0); f1, G1 = c1.vgQ(L)
    for t, f, g in (("second generation", c2.Q(L), c2.dQ(L)), ("first generation", c1.Q(L), c1.dQ(L)), ("first generation (joint)", f1, G1), ("functional form", f0, G0)): cx.close(f"{t}: criterion value", f, q, rtol=1e-9, atol=1e-12 * s ** 4 * p * m); cx.close(f"{t}: criterion gradient", g, G, rtol=1e-7, atol=1e-7 * ga)
    ks = r1.get_gcf_constants(nm, p, m); cx.close("constants", [ks["k1"], ks["k2"], ks["k3"], ks["k4"]], [c2.k1, c2.k2, c2.k3, c2.k4]); cx.close("constants are the family's", [c2.k1, c2.k2, c2.k3, c2.k4], [0, 1 - k, k, -1], atol=1e-15)
    D = np.zeros((p * m, p * m)); h = 1e-4 * s
    for a, (j, i) in enumerate((j, i) for j in range(m) for i in range(p)): E = np.zeros_like(L); E[i, j] = h; D[:, a] = ((8 * (c2.dQ(L + E) - c2.dQ(L - E)) - (c2.dQ(L + 2 * E) - c2.dQ(L - 2 * E))) / (12 * h)).T.ravel()
    H = c2.d2Q(L); cx.close("second derivative", H, D, rtol=1e-6, atol=1e-7 * np.abs(D).max()); Y = r.normal(size=(p * m, 3)); cx.close("second derivative applied", c2.d2Q_apply(L, Y), D @ Y, rtol=1e-6, atol=1e-6 * np.abs(D @ Y).max()); cx.close("second derivative applied to a vector", c2.d2Q_apply(L, Y[:, 0]), D @ Y[:, 0], rtol=1e-6, atol=1e-6 * np.abs(D @ Y).max())
    cx.close("raises on an unknown family", int(_unk(p, m)), 1)
    on, og = [("quartimin", 0.), ("quartimax", 0.), ("biquartimin", .5), ("biquartimax", .5), ("varimax", 1.), ("covarimin", 1.), ("equamax", m / 2.)][int(r.integers(7))]; qf = lambda A: q_ob(A, og); f, g = r1.rotate(L, on, method="oblimin", rotation_type="orthogonal", n_iters=1)[-2:]; fv, gv = f(L, g); cx.close("oblimin value", fv, qf(L), rtol=1e-9, atol=1e-12 * s ** 4 * p * m); cx.close("oblimin gradient", gv, ngrad(qf, L), rtol=1e-7, atol=1e-7 * s ** 3 * p * m)
    Ht = r.normal(size=(p, m)) * s; W = (r.random((p, m)) < .6) * 1. if r.random() < .5 else r.uniform(0, 3, (p, m)); W = None if r.random() < .2 else W; w = np.ones((p, m)) if W is None else W; qt = .5 * np.sum(w * (L - Ht) ** 2); gt = w * (L - Ht); t2 = cr.TargetCriterion(Ht, W); t1 = r1.TargetRotation(L, Ht, W); a, b = t1.vgQ(L); cx.close("target values", [t2.Q(L), t1.Q(L), a], [qt] * 3, rtol=1e-10)
    for z in (t2.dQ(L), t1.dQ(L), b): cx.close("target gradient", z, gt, rtol=1e-10)
    cx.close("target second derivative", t2.d2Q_apply(L, Y), (w.T.ravel()[:, None]) * Y, rtol=1e-10); cx.close("target second derivative matrix", t2.d2Q(L), np.diag(w.T.ravel())); cx.ok("arguments untouched", np.array_equal(L, L0), "modified")


def _unk(p, m):
    try: cr.GCFCriterion("nonsense", p, m); return False
    except ValueError: return True


@workload("parameterisations", quick=400, thorough=8000)
def par(cx):
    r = cx.rng; L, p, m = loads(r); A = L * 10. ** r.integers(-1, 2); nm = str(r.choice(METH)); C = cr.GCFCriterion(nm, p, m); k = m * (m - 1) // 2; th = r.normal(size=k) * r.choice([.1, 1, 5]); cx.case((nm, p, m)); Sk = cy.vec_to_skew(th, m); cx.close("skew", Sk + Sk.T, 0., atol=1e-15); cx.close("skew vector", cy.skew_to_vec(Sk), th, rtol=1e-14); T = cy.vec_to_rot(th, m); cx.close("Cayley rotation is orthogonal", T.T @ T, np.eye(m), atol=1e-10); cx.close("proper", np.linalg.det(T), 1., rtol=1e-9); cx.close("Cayley definition", T @ (np.eye(m) + Sk), np.eye(m) - Sk, atol=1e-9 * (1 + np.abs(Sk).max())); cx.close("inverse pair", cy.rot_to_vec(T), th, rtol=1e-6, atol=1e-7 * np.abs(th).max())
    B = r.normal(size=(3, k)); cx.close("batches", cy.vec_to_rot(B, m), np.array([cy.vec_to_rot(b, m) for b in B]), rtol=1e-12, atol=1e-13); cx.close("batched inverse", cy.rot_to_vec(cy.vec_to_rot(B, m)), B, rtol=1e-7, atol=1e-8)
    O, Q = r2.OrthoRotation(m), r2.ObliqueRotation(m); cx.close("numbers of constraints", [O.n_constraints(), Q.n_constraints(), O.constraint_dim], [k, m * (m - 1), k]); f = lambda t: C.Q(O.rotated_loadings(A, O.unconstrained_to_rotation(t))); g = O.d_rotation(th, O.grad(A, T, C.dQ(A @ T))); cx.deriv("chain rule through the parameterisation", g, lambda t: np.array(f(t)), th, rtol=1e-5, atol=1e-7 * abs(f(th)), scale=np.full(k, .3)); cx.close("parameters recovered", O.rotation_to_unconstrained(T), th, rtol=1e-6, atol=1e-7 * np.abs(th).max())
    U = robl(r, m)
    for t, R, S, set_ in (("orthogonal", O, rorth(r, m), lambda X: np.abs(X.T @ X - np.eye(m)).max()), ("oblique", Q, U, lambda X: np.abs((X ** 2).sum(0) - 1).max())):
        Lr = R.rotated_loadings(A, S); Ph = R.implied_corr(S); cx.closen(f"{t}: model preserved", Lr @ Ph @ Lr.T, A @ A.T, rtol=1e-8); Gd = R.grad(A, S, C.dQ(Lr)); fr = lambda X: C.Q(A @ X if t == "orthogonal" else A @ np.linalg.inv(X).T); N = ngrad(fr, S); cx.close(f"{t}: gradient", Gd, N, rtol=1e-4, atol=1e-4 * np.abs(N).max()); P = R.constraint_project(S, N); X = r.normal(size=(m, m)); V = R.constraint_project(S, X)
        tg = (lambda Z: np.abs(S.T @ Z + Z.T @ S).max()) if t == "orthogonal" else (lambda Z: np.abs((S * Z).sum(0)).max()); cx.ok(f"{t}: projection is tangent", tg(P) < 1e-9 * (1 + np.abs(N).max()) and tg(V) < 1e-9, "normal component left"); cx.close(f"{t}: projection is orthogonal", np.sum((X - V) * P), 0., atol=1e-8 * np.abs(N).max() * m * m); cx.close(f"{t}: projection idempotent", R.constraint_project(S, V), V, atol=1e-10)
        Y = R.constraint_retract(S + .3 * X); cx.ok(f"{t}: retraction lands in the set", set_(Y) < 1e-10, str(set_(Y))); cx.close(f"{t}: retraction fixes the set", R.constraint_retract(S), S, atol=1e-10); e = 1e-5; cx.close(f"{t}: retraction is first order", (R.constraint_retract(S + e * V) - S) / e, V, atol=1e-3 * (1 + np.abs(V).max() ** 2))
        G = r1.GeneralizedCrawfordFerguson(A, nm, "ortho" if t == "orthogonal" else "oblique"); cx.closen(f"{t}: first-generation rotation", G.rotate(S), Lr, rtol=1e-9); cx.close(f"{t}: first-generation value", G.f(S), fr(S), rtol=1e-9); cx.close(f"{t}: first-generation gradient", G.df(S), N, rtol=1e-4, atol=1e-4 * np.abs(N).max())


def crit_of(nm, p, m): return lambda L: q_cf(L, kappa(nm, p, m))


def judge(cx, t, A, L, T, Phi, q, start, obl, exhausted=False, stol=2e-3, gtol=0):
    """T in its set, model reproduced, criterion not worse than the start, projected gradient vanishing."""
    m = len(T); sc = np.abs(A).max()
    if obl and (np.linalg.cond(T) > 200): cx.note(f"{t}: nearly collapsed"); return False
    cx.close(f"{t}: transformation in its constraint set", np.diag(T.T @ T) if obl else T.T @ T, np.ones(m) if obl else np.eye(m), atol=1e-8); cx.close(f"{t}: factor correlations", Phi, T.T @ T if obl else np.eye(m), atol=1e-8) if Phi is not None else None; Ph = T.T @ T; cx.closen(f"{t}: common covariance preserved", L @ Ph @ L.T, A @ A.T, rtol=1e-7); cx.closen(f"{t}: loadings are the rotated ones", L, A @ np.linalg.inv(T).T if obl else A @ T, rtol=1e-8)
    cx.ok(f"{t}: criterion no worse than the start", q(L) <= start * (1 + 1e-9) + 1e-14 * sc ** 4, lambda: f"{q(L)} from {start}")
    if exhausted: cx.note(f"{t}: iteration limit"); return False
    G = ngrad(q, L); M = L.T @ G
    C = low(M - M.T) if not obl else offd(M @ np.linalg.inv(Ph)); cx.close(f"{t}: stationary", C, 0., atol=stol * np.abs(M).max() + 1e-9 * sc ** 4 * len(A) + gtol); return True


@workload("solvers", quick=160, thorough=5000, timeout=60)
def solv(cx):
    r = cx.rng; L, p, m = loads(r, bool(r.random() < .8)); sc = 10. ** r.choice([0, 0, -1, 1, 2]); Pa = rorth(r, m); A = L @ Pa * sc; nm = str(r.choice(METH)); q = crit_of(nm, p, m); obl = bool(r.integers(2)); gen = int(r.integers(3)); A0 = A.copy(); rand = bool(r.integers(2)); T0 = (robl(r, m) if obl else rorth(r, m)) if rand else None; cx.case((nm, obl, gen, p, m, round(np.log10(sc)), rand)); Ti = np.eye(m) if T0 is None else T0.copy(); start = q(A @ np.linalg.inv(Ti).T if obl else A @ Ti)
    if gen == 0:
        R = r2.ObliqueRotation(m) if obl else r2.OrthoRotation(m); C = cr.GCFCriterion(nm, p, m); tol = 1e-6 * sc ** 4; T, info = so.gpa(C, R, A, T0=T0, tol=tol); L = R.rotated_loadings(A, T); judge(cx, "projection solver", A, L, T, R.implied_corr(T), q, start, obl, info["n_iter"] >= 1000); cx.close("projection solver: reported criterion", info["f"], q(L), rtol=1e-8, atol=1e-12 * sc ** 4); h = np.array([a for a, _ in info["trace"]]); cx.ok("projection solver: monotone", np.all(np.diff(h) <= 1e-12 * np.abs(h[:-1])), "criterion increased")
    elif gen == 1:
        G = r1.GeneralizedCrawfordFerguson(A, nm, "oblique" if obl else "ortho"); kw = dict(T=T0) if rand else {}; G.fit(kw or None); judge(cx, "first generation", A, G.rotate(G.T), G.T, None, q, start, obl, len(G.opt_hist) >= (500 if obl else 1000), gtol=1e-6)
    else:
        cf = bool(r.integers(2)); on, og = [("quartimax", 0.), ("biquartimax", .5), ("varimax", 1.)][int(r.integers(3))] if not obl else ("quartimin", 0.); qq = q if cf else (lambda B: q_ob(B, og)); kw = dict(T=T0) if rand else {}; st = qq(A @ np.linalg.inv(Ti).T if obl else A @ Ti); L, T, G, Gq, hist, vg, gm = r1.rotate(A, nm if cf else on, method="cf" if cf else "oblimin", rotation_type="oblique" if obl else "orthogonal", **kw); judge(cx, "functional form", A, L, T.T if obl else T, None, qq, st, obl, len(hist) >= 500, gtol=1e-6)
    cx.ok("loadings untouched", np.array_equal(A, A0) and (T0 is None or np.array_equal(T0, Ti)), "modified")


@workload("Cayley solver", quick=40, thorough=1200, timeout=90)
def cays(cx):
    r = cx.rng; L, p, m = loads(r); A = L @ rorth(r, m); nm = str(r.choice(METH)); q = crit_of(nm, p, m); tgt = bool(r.integers(3) == 0); H = L * (np.abs(L) > .4); C = cr.TargetCriterion(H) if tgt else cr.GCFCriterion(nm, p, m); q = (lambda B: .5 * np.sum((B - H) ** 2)) if tgt else q; th = r.normal(size=m * (m - 1) // 2) * .5; T0 = cy.vec_to_rot(th, m) if r.integers(2) else None; cx.case((nm, tgt, p, m)); T, info = so.cayley_solve(C, r2.OrthoRotation(m), A, T0=T0); Ti = np.eye(m) if T0 is None else T0; judge(cx, "Cayley solver", A, A @ T, T, None, q, q(A @ Ti), False, not info["opt"].success or np.abs(info["theta"]).max() > 30); cx.close("Cayley solver: reported criterion", info["f"], q(A @ T), rtol=1e-9, atol=1e-12)


@workload("target rotation", quick=120, thorough=2400)
def targ(cx):
    r = cx.rng; L, p, m = loads(r); obl = bool(r.integers(2)); P = rorth(r, m); A = L @ P; W = (np.abs(L) < .4) * 1. if r.integers(2) else np.ones((p, m)); H = L * (np.abs(L) > .4) if r.integers(2) else L; w = W if r.integers(2) else W * r.uniform(.5, 1.5, (p, m)); cx.case((obl, p, m)); q = lambda B: .5 * np.sum(w * (B - H) ** 2)
    start = q(A); R = r2.ObliqueRotation(m) if obl else r2.OrthoRotation(m); T, info = so.gpa(cr.TargetCriterion(H, w), R, A); judge(cx, "target", A, R.rotated_loadings(A, T), T, R.implied_corr(T), q, start, obl, info["n_iter"] >= 1000, gtol=1e-5)
    G = r1.TargetRotation(A, H, w, "oblique" if obl else "ortho"); G.fit(); judge(cx, "target (first generation)", A, G.rotate(G.T), G.T, None, q, start, obl, len(G.opt_hist) >= (500 if obl else 1000), gtol=1e-6)
    if not obl and np.all(w == 1): u, s, v = np.linalg.svd(A.T @ H); b = q(A @ (u @ v)); cx.ok("full target: not below the Procrustes optimum", info["f"] >= b - 1e-9 * (1 + b) and q(G.rotate(G.T)) >= b - 1e-9 * (1 + b), "below the optimum")


@workload("identification", quick=160, thorough=3200)
def ident(cx):
    r = cx.rng; L, p, m = loads(r); sc = 10. ** r.choice([0, 0, 1]); A = L @ rorth(r, m) * sc; nm = str(r.choice(METH)); obl = bool(r.integers(2)); R = r2.ObliqueRotation(m) if obl else r2.OrthoRotation(m); C = cr.GCFCriterion(nm, p, m); cx.case((nm, obl, p, m, sc)); I = idn.RotationIdentification(R, C, tol=1e-8 * sc ** 4); lay = I.layout; fit = I.fit(A); q = crit_of(nm, p, m)
    if judge(cx, "identified", A, fit["L"], fit["T"], fit["Phi"], q, q(A), obl, fit["info"]["n_iter"] >= 1000, 1e-3): cx.close("constraints vanish at the solution", I.constraint(lay.pack(fit["L"], fit["Phi"], np.ones(p))), 0., atol=1e-4 * sc ** 4)
    Lx = r.normal(size=(p, m)) * sc; Ph = np.corrcoef(r.normal(size=(m, 3 * m))) if obl else np.eye(m); psi = r.uniform(.2, 2, p); t = lay.pack(Lx, Ph, psi); ns = m * (m - 1) // 2

    def con(t): L, P, _ = lay.unpack(t); M = L.T @ C.dQ(L); return low(M - M.T) if not obl else offd(M @ np.linalg.inv(P))
    got = I.constraint(t); w = con(t); cx.close("constraint values", got if obl or np.sign(got[0]) == np.sign(w[0]) else -got, w, rtol=1e-8, atol=1e-9 * sc ** 4); s = np.r_[np.full(p * m, sc), np.full(ns, .05), np.ones(p)]; D = I.d_constraint(t); cx.deriv("constraint derivatives", D[:, I.free_mask()] * s[I.free_mask()], lambda z: I.constraint(t + np.where(I.free_mask(), 1, 0) * s * _put(z, I.free_mask())), np.zeros(I.free_mask().sum()), rtol=1e-5, atol=1e-7 * sc ** 4, scale=np.full(I.free_mask().sum(), .3)); cx.close("free parameters", [I.free_mask().sum(), I.n_constraints()], [p * m + p + (ns if obl else 0), len(w)])
    G = r1.GeneralizedCrawfordFerguson(Lx, nm, "oblique" if obl else "ortho"); cx.close("first generation: constraint values", G.constraints(Lx, Ph) if obl or np.sign(G.constraints(Lx, Ph)[0]) == np.sign(w[0]) else -G.constraints(Lx, Ph), w, rtol=1e-8, atol=1e-9 * sc ** 4)
    f = lambda z: (G.oblique_constraints(z.reshape(m, p).T, Ph) if obl else G.ortho_constraints(z.reshape(m, p).T, Ph)); v = Lx.T.ravel(); J = G.dC_dL_Obl(Lx, Ph) if obl else G.dC_dL_Ortho(Lx, Ph); J = J.transpose(1, 0, 3, 2).reshape(m * m, p * m) if obl else np.asarray(J); cx.deriv("first generation: constraint derivatives in the loadings", J, lambda z: f(z).T.ravel(), v, rtol=1e-5, atol=1e-7 * sc ** 3, scale=np.full(p * m, .3 * sc))
    if obl:
        J = G.dC_dP_Obl(Lx, Ph)

        def fp(z): P = Ph.copy(); k = 0; [P.__setitem__((i, j), z[i * m + j]) for i in range(m) for j in range(m)]; return G.oblique_constraints(Lx, P)
        N = np.zeros((m, m, m, m)); h = 1e-4; Mx = Lx.T @ C.dQ(Lx)   # off-diagonal directions, symmetric perturbation
        for x in range(m):
            for y in range(m):
                if x != y: E = np.zeros((m, m)); E[x, y] = E[y, x] = h; N[:, :, x, y] = (Mx @ np.linalg.inv(Ph + E) - Mx @ np.linalg.inv(Ph - E)) / (2 * h)
        # at a solution L' dQ inv(Phi) is diagonal: the formula holds there, so compare with the diagonal part only
        V = np.linalg.inv(Ph); Cd = np.diag(np.diag(Mx @ V)); W = np.zeros_like(N)
        for u in range(m):
            for vv in range(m):
                for x in range(m):
                    for y in range(m):
                        if x != y and u != vv: E = np.zeros((m, m)); E[x, y] = E[y, x] = 1; W[u, vv, x, y] = -(Cd @ E @ V)[u, vv]
        cx.close("first generation: constraint derivatives in the correlations", J, W, rtol=1e-9, atol=1e-9 * np.abs(W).max())
    K = idn.CanonicalIdentification(p, m); S = r.uniform(.2, 2, p); f_ = K.fit(A, S if r.integers(2) else None); Pz = f_["L"].T @ f_["L"]; cx.closen("canonical: model preserved", f_["L"] @ f_["L"].T, A @ A.T, rtol=1e-9); k2 = K.fit(A, S); M = k2["L"].T @ (k2["L"] / S[:, None]); cx.close("canonical: diagonal", M - np.diag(np.diag(M)), 0., atol=1e-9 * M.max()); cx.ok("canonical: descending", np.all(np.diff(np.diag(M)) <= 1e-9 * M.max()), "order"); t2 = K.layout.pack(k2["L"], np.eye(m), S); cx.close("canonical: constraints vanish", K.constraint(t2), 0., atol=1e-9 * M.max()); fm = K.free_mask(); s3 = np.r_[np.full(p * m, sc), np.full(ns, 1), S]; t3 = K.layout.pack(Lx, np.eye(m), S); cx.deriv("canonical: constraint derivatives", K.d_constraint(t3)[:, fm] * s3[fm], lambda z: K.constraint(t3 + s3 * _put(z, fm)), np.zeros(fm.sum()), rtol=1e-6, atol=1e-8 * sc ** 2, scale=np.full(fm.sum(), .2))


def _put(z, m): o = np.zeros(len(m)); o[m] = z; return o


@workload("rotated loadings as a function of the unrotated ones", quick=32, thorough=640, timeout=120, shards=4)
def dla(cx):
    r = cx.rng; L, p, m = loads(r); cx.skip("large") if p * m > 15 else None; A = L @ rorth(r, m); nm = str(r.choice(METH)); cx.case((nm, p, m)); G = r1.GeneralizedCrawfordFerguson(A, nm, "ortho"); G.fit(dict(tol=1e-10, n_iters=2000))
    if G.opt_hist[-1][1] > 1e-8: cx.skip("not converged")
    Lr = G.rotate(G.T); M = Lr.T @ (G.dQ(Lr)); J = np.asarray(G.dL_dA_Ortho(Lr, np.eye(m))); D = np.zeros((p * m, p * m)); h = 1e-4; T0 = G.T
    for a, (j, i) in enumerate((j, i) for j in range(m) for i in range(p)):
        w = []
        for s in (1, -1):
            B = A.copy(); B[i, j] += s * h; K = r1.GeneralizedCrawfordFerguson(B, nm, "ortho"); K.fit(dict(T=T0, tol=1e-10, n_iters=2000)); w.append(K.rotate(K.T))
            if np.abs(w[-1] - Lr).max() > .05 or K.opt_hist[-1][1] > 1e-8: cx.skip("weakly determined rotation")
        if np.abs((w[0] + w[1]) / 2 - Lr).max() > 2e-2 * np.abs(w[0] - w[1]).max() + 1e-9: cx.skip("rotation not smooth at the step used")
        D[:, a] = ((w[0] - w[1]) / (2 * h)).T.ravel()
    cx.close("derivative of the rotated loadings", J, D, rtol=1e-3, atol=1e-3 * np.abs(D).max())


@workload("alignment", quick=400, thorough=8000)
def alig(cx):
    r = cx.rng; L, p, m = loads(r, bool(r.integers(2))); norm = bool(r.integers(2)); P = r.permutation(m); s = r.choice([-1., 1.], m); noise = r.choice([0, .05, .5, 2]); E = L[:, P] * s + noise * r.normal(size=L.shape); Ph = np.corrcoef(r.normal(size=(m, 3 * m))); se = r.uniform(.1, 1, L.shape); pse = r.uniform(.1, 1, (m, m)); pse = pse + pse.T; cx.case((p, m, noise, norm)); o = al2.align_model(E, L, Phi=Ph, L_se=se, Phi_se=pse, normalize=norm); pm, sg = o["perm"], o["signs"]; cx.close("permutation", np.sort(pm), np.arange(m)); cx.ok("signs", set(np.unique(sg)) <= {-1., 1.}, str(sg)); N = lambda M: M / (np.linalg.norm(M, axis=0)) if norm else M
    obj = lambda pm, sg: np.sum(N(L) * N(E)[:, pm] * sg); best = max(obj(list(q), np.sign(np.sum(L * E[:, list(q)], axis=0))) for q in itertools.permutations(range(m))); cx.close("optimal among signed permutations", obj(pm, sg), best, rtol=1e-9)
    F = np.eye(m)[:, pm] * sg; cx.close("aligned loadings", o["L"], E @ F, rtol=1e-13); cx.close("aligned correlations", o["Phi"], F.T @ Ph @ F, rtol=1e-12, atol=1e-14); cx.close("aligned standard errors", o["L_se"], se @ np.abs(F)); cx.close("aligned correlation standard errors", o["Phi_se"], np.abs(F).T @ pse @ np.abs(F)); cx.closen("model preserved", o["L"] @ o["Phi"] @ o["L"].T, E @ Ph @ E.T, rtol=1e-10)
    j, sg1 = al1.get_loadings_permutation(L, E); cx.close("first generation: permutation", np.sort(j), np.arange(m)); F = np.eye(m)[:, j] * sg1; a, b, c, d, jj, ss = al1.align_model_matrices(L, E, Ph, se, pse); cx.close("first generation: aligned", [*a.ravel(), *c.ravel(), *b.ravel(), *d.ravel()], [*(E @ F).ravel(), *(F.T @ Ph @ F).ravel(), *(se @ np.abs(F)).ravel(), *(np.abs(F).T @ pse @ np.abs(F)).ravel()], rtol=1e-12, atol=1e-13)
    if noise == 0: cx.close("exact recovery", o["L"], L, rtol=1e-10); cx.close("first generation: exact recovery", a, L, rtol=1e-10)
