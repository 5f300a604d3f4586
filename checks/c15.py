"""C15: spline bases and penalties against explicit piecewise-polynomial algebra and quadrature."""
import numpy as np, pandas as pd, scipy.interpolate as si, scipy.linalg as sl
from vlib.mon import workload
from pystatsm.utilities import splines as sp
from pystatsm.pygam import smooth_setup as ss

GX, GW = np.polynomial.legendre.leggauss(6)


def knots_of(cx, n, lo=4):
    r = cx.rng; k = int(r.integers(lo, n)); kind = str(r.choice(["even", "rand", "clumped", "scaled"])); d = {"even": np.ones(k - 1), "rand": r.random(k - 1) + .1, "clumped": np.exp(r.normal(size=k - 1)), "scaled": (r.random(k - 1) + .2) * 10.0 ** r.integers(-2, 4)}[kind]
    return kind, np.r_[0, np.cumsum(d)] + r.normal() * 3


def xdata(cx, n):
    r = cx.rng; k = str(r.choice(["unif", "norm", "ties", "exp", "far"])); x = {"unif": r.random(n), "norm": r.normal(size=n) * 3, "ties": r.integers(0, 40, n) / 7., "exp": r.exponential(size=n) * 100, "far": r.random(n) + 1e3}[k]
    return k, x


def points(cx, kn, m=40):
    r = cx.rng; a, b = kn[0], kn[-1]; x = np.r_[a + (b - a) * r.random(m), kn, (kn[1:] + kn[:-1]) / 2]
    return x[r.permutation(len(x))]


def gauss(f, kn):
    """Integral over [kn0, kn-1] of f(x)' f(x), exactly for piecewise polynomials."""
    S = 0
    for a, b in zip(kn[:-1], kn[1:]):
        V = f((a + b) / 2 + (b - a) / 2 * GX); S = S + (V * (GW * (b - a) / 2)[:, None]).T @ V
    return S


def common(cx, kind, B, x, S=None, null=None):
    cx.close("basis finite", np.isfinite(B), True)
    if S is not None:
        sc = np.abs(S).max(); cx.close("penalty symmetric", S / sc, S.T / sc, atol=1e-9); w = np.linalg.eigvalsh((S + S.T) / 2) / sc; cx.ok("penalty positive semi-definite", w.min() > -1e-8, f"min eigenvalue {w.min():.2e}"); cx.close("penalty null-space dimension", int((w < 1e-9).sum()), null)


@workload("cubic regression", quick=300, thorough=8000)
def cr(cx):
    kind, kn = knots_of(cx, 14); x = points(cx, kn); k = len(kn); h = np.diff(kn).min(); cx.case(("cr", kind, k))
    k0, x0 = kn.copy(), x.copy(); S, F = sp.crspline_penalty(kn); X = sp.crspline_basis(x, kn, F); cx.ok("inputs untouched", np.array_equal(kn, k0) and np.array_equal(x, x0), "knots or x modified"); ref = si.CubicSpline(kn, np.eye(k), bc_type="natural"); cx.close("natural cubic spline", X, ref(x), rtol=1e-7, atol=1e-8)
    cx.close("values at the knots", sp.crspline_basis(kn, kn, F), np.eye(k), atol=1e-9); cx.close("reproduces constants", X.sum(1), 1., rtol=1e-9); cx.close("reproduces lines", X @ kn, x, rtol=1e-8, atol=1e-8 * np.abs(kn).max())
    cx.close("one point at a time", np.vstack([sp.crspline_basis(x[i:i + 1], kn, F) for i in range(0, len(x), 7)]), X[::7], rtol=1e-12, atol=1e-14); Sq = gauss(lambda t: ref(t, 2), kn); cx.closen("penalty is the integrated squared curvature", S, Sq, rtol=1e-8); common(cx, "cr", X, x, S, 2); cx.closen("second derivatives at the knots", F, ref(kn, 2), rtol=1e-8, atol=1e-9)


@workload("cyclic cubic", quick=300, thorough=8000)
def cc(cx):
    kind, kn = knots_of(cx, 14, 5); x = points(cx, kn); k = len(kn); cx.case(("cc", kind, k)); x0 = x.copy(); S, F = sp.ccspline_penalty(kn); X = sp.ccspline_basis(x, kn, F); cx.ok("inputs untouched", np.array_equal(x, x0), "x modified")
    I = np.eye(k - 1); ref = si.CubicSpline(kn, np.vstack([I, I[:1]]), bc_type="periodic"); cx.close("periodic cubic spline", X, ref(x), rtol=1e-7, atol=1e-8); cx.close("periodicity", sp.ccspline_basis(kn[:1], kn, F), sp.ccspline_basis(kn[-1:], kn, F), atol=1e-9); cx.close("values at the knots", sp.ccspline_basis(kn[:-1], kn, F), I, atol=1e-9)
    cx.close("reproduces constants", X.sum(1), 1., rtol=1e-8); cx.close("one point at a time", np.vstack([sp.ccspline_basis(x[i:i + 1], kn, F) for i in range(0, len(x), 7)]), X[::7], rtol=1e-12, atol=1e-14); cx.closen("penalty is the integrated squared curvature", S, gauss(lambda t: ref(t, 2), kn), rtol=1e-7); common(cx, "cc", X, x, S, 1)


@workload("B-splines", quick=300, thorough=8000)
def bs(cx):
    r = cx.rng; deg = int(r.integers(1, 6)); df = int(r.integers(deg + 2, deg + 14)); xk, x = xdata(cx, int(r.integers(30, 120))); kn, inner = sp.bspline_knots(x, df, deg); cx.case(("bs", deg, df, xk)); cx.ok("inner knots cover the data", inner[0] <= x.min() and inner[-1] >= x.max(), f"{inner[0]}..{inner[-1]}"); B = sp.bspline_basis(x, kn, degree=deg)
    cx.close("basis size", B.shape, (len(x), df)); ref = si.BSpline(kn, np.eye(df), deg); cx.close("B-spline basis", B, ref(x), atol=1e-9); cx.close("partition of unity", B.sum(1), 1., rtol=1e-9); cx.ok("local support", ((B > 1e-12).sum(1) <= deg + 1).all(), "too many active functions"); gr = np.array([kn[i + 1:i + deg + 1].mean() for i in range(df)]); cx.close("reproduces lines", B @ gr, x, rtol=1e-8, atol=1e-8 * np.abs(x).max())
    for d in range(1, deg): cx.closen("basis derivatives", sp.bspline_basis(x, kn, deriv=d, degree=deg), ref(x, d), rtol=1e-7)
    cx.close("one point at a time", np.vstack([sp.bspline_basis(x[i:i + 1], kn, degree=deg) for i in range(0, len(x), 9)]), B[::9], atol=1e-12)
    for p in range(1, deg + 1):
        D, S = sp.bspline_penalty(kn, inner, deg, penalty=p); cx.closen("penalty square root", D.T @ D, S, rtol=1e-9); cx.closen("penalty is the integrated squared derivative", S, gauss(lambda t: ref(t, p), inner), rtol=1e-6); sc = np.abs(S).max(); w = np.linalg.eigvalsh(S) / sc; cx.ok("penalty positive semi-definite", w.min() > -1e-9, f"{w.min():.1e}"); poly = np.linalg.lstsq(sp.bspline_basis(np.linspace(inner[0], inner[-1], 300), kn, degree=deg), np.vander(np.linspace(-1, 1, 300), p, increasing=True), rcond=None)[0]; cx.close("penalty vanishes on low-degree polynomials", np.abs(S @ poly).max() / sc / max(1, np.abs(poly).max()), 0., atol=1e-6)
    o = int(r.integers(1, 4)); m = int(r.integers(o + 1, 12)); v = np.vander(np.arange(m), o, increasing=True); Dm = sp.difference_mat(m, o); cx.close("difference matrix shape", Dm.shape, (m - o, m)); cx.close("differences annihilate polynomials", Dm @ v, 0., atol=1e-9); z = r.normal(size=m); cx.close("differences", Dm @ z, np.diff(z, o), atol=1e-12)


@workload("knots", quick=300, thorough=8000)
def knots(cx):
    r = cx.rng; xk, x = xdata(cx, int(r.integers(30, 200))); u = np.unique(x); df = int(r.integers(4, min(15, len(u) - 2))); cx.case((xk, df))
    for nm, kn in (("cr", sp.crspline_knots(x, df)), ("cc", sp.ccspline_knots(x, df))):
        cx.close("knot count", len(kn), df); cx.close("knots span the data", [kn[0], kn[-1]], [x.min(), x.max()], rtol=1e-12); cx.ok("knots strictly increase", (np.diff(kn) > 0).all(), f"{kn}"); cx.close("knots are quantiles of the distinct values", kn, np.quantile(u, np.linspace(0, 1, df)), rtol=1e-9, atol=1e-9)
    deg = int(r.integers(1, 5)); ndx = int(r.integers(3, 25)); kn, order, lb, ub = sp.equispaced_knots(x, deg, ndx); d = (x.max() - x.min()) / ndx; cx.close("equispaced knots", np.diff(kn), d, rtol=1e-6); cx.close("first equispaced knot", kn[0], lb, rtol=1e-9); cx.close("equispaced knot count", len(kn), ndx + 2 * order)


@workload("constraints", quick=300, thorough=8000)
def cons(cx):
    r = cx.rng; n = int(r.integers(40, 150)); xk, x = xdata(cx, n); u = np.unique(x); df = int(r.integers(5, min(14, len(u) - 3))); kind = str(r.choice(["cr", "cc", "bs"])); cx.case((kind, df, xk)); X, S, kn, fk = {"cr": sp._get_crsplines, "cc": sp._get_ccsplines, "bs": sp._get_bsplines}[kind](x, df); p = X.shape[1]; cx.close("raw basis size", p, df - (kind == "cc")); cx.close("basis matches its recorded knots", X, {"cr": sp.crspline_basis, "cc": sp.ccspline_basis, "bs": sp.bspline_basis}[kind](x, kn, **fk), rtol=1e-12)
    c = X.mean(0); (s,) = ss.get_smooth(x, df, kind); Z = np.asarray(s["X"]); cx.close("constrained size", Z.shape, (n, p - 1)); cx.close("columns sum to zero", Z.mean(0), 0., atol=1e-10); null = sl.null_space(c[None]); V = X @ null; P = lambda M: M @ np.linalg.pinv(M, rcond=1e-9); cx.close("constrained span", P(Z), P(V), atol=1e-6)
    a = r.normal(size=p - 1); b = np.linalg.lstsq(Z, V @ a, rcond=None)[0]
    if np.linalg.cond(Z) < 1e6: cx.close("penalty carried through the constraint", b @ s["S"] @ b * s["sc"], (null @ a) @ S @ (null @ a), rtol=1e-5, atol=1e-7 * np.abs(S).max())
    cx.close("scale", s["sc"] * np.abs(X).sum(1).max() ** 2, np.abs(S).sum(0).max(), rtol=1e-9); cx.closen("penalty symmetric", s["S"], s["S"].T, rtol=1e-9); cx.ok("penalty positive semi-definite", np.linalg.eigvalsh(s["S"]).min() > -1e-9 * np.abs(s["S"]).max(), "negative")
    q, _ = np.linalg.qr(c[:, None], mode="complete"); X1, S1 = sp.absorb_constraints(q, X=X, S=S); cx.close("absorbed design", X1, (X @ q)[:, 1:], atol=1e-10); cx.closen("absorbed penalty", S1, (q.T @ S @ q)[1:, 1:], rtol=1e-9); nb = X @ q[:, 1:]; cx.close("new data mapped like old", sp.absorb_constraints(s["q"], X=X[:5])[0], Z[:5], atol=1e-12)


@workload("smooth terms", quick=200, thorough=4000)
def terms(cx):
    r = cx.rng; n = int(r.integers(80, 200)); D = pd.DataFrame(dict(x0=r.normal(size=n), x1=r.random(n), x2=r.exponential(size=n), z=r.normal(size=n), g=r.choice(list("abc"), n), y=r.normal(size=n))); D.loc[:2, "g"] = list("abc"); m = int(r.integers(1, 4)); spec = []; txt = []
    for v in ["x0", "x1", "x2"][:m]:
        kind = str(r.choice(["cr", "cc", "bs"])); df = int(r.integers(5, 13)); by = bool(r.random() < .3); form = int(r.integers(3)); spec.append((v, df, kind, by)); txt.append([f"s({v}, df={df}, kind='{kind}'" + (", by=g)" if by else ")"), f"s({v}, {df}, '{kind}'" + (", g)" if by else ")"), f"s({v},kind='{kind}',df={df}" + (",by=g)" if by else ")")][form])
    par = bool(r.integers(2)); F = "y~" + "+".join((["z"] if par else ["1"]) + txt); cx.case((m, par, tuple((k, b) for _, _, k, b in spec)), formula=F); inf = ss.parse_smooths(F, D); cx.close("terms parsed", sorted(inf), [s[0] for s in spec])
    for v, df, kind, by in spec: cx.ok("term fields", inf[v]["df"] == df and inf[v]["kind"] == kind and np.array_equal(inf[v]["x"], D[v]) and ((inf[v]["by"] is not None) == by), f"{inf[v]['df']} {inf[v]['kind']}")
    pf = ss.get_parametric_formula(F); cx.ok("parametric part", pf.replace(" ", "") == ("y~z" if par else "y~1"), pf); Xp = pd.DataFrame({"Intercept": np.ones(n), **({"z": D["z"]} if par else {})}); sm, ns, nt, names = ss.get_smooth_terms(inf, Xp); X, S, rk, ld = ss.get_smooth_matrices(Xp, sm, ns, nt); cx.close("number of terms", ns, sum(3 if b else 1 for *_, b in spec)); cx.close("design columns", sum(np.shape(a)[1] for a in X), nt); cx.close("names", len(names), nt); cx.ok("names distinct", len(set(names)) == nt, "dup")
    pos = Xp.shape[1]
    for i, (k, s) in enumerate(sm.items()):
        cx.close("term columns", s["ix"], np.arange(pos, pos + s["X"].shape[1])); pos += s["X"].shape[1]; blk = S[i][np.ix_(s["ix"], s["ix"])]; cx.closen("penalty block", blk, s["S"], rtol=1e-12); cx.close("penalty elsewhere", np.abs(S[i]).sum(), np.abs(blk).sum(), rtol=1e-12); w = np.linalg.eigvalsh((s["S"] + s["S"].T) / 2); nz = w[w > 1e-9 * w.max()]; kd = s["kind"]; null = {"cr": 1, "cc": 0, "bs": 1}[kd]; cx.close("penalty rank", [rk[i], len(nz)], s["S"].shape[0] - null); cx.close("log pseudo-determinant", ld[i], np.log(nz).sum(), rtol=1e-5, atol=1e-4)
        if s["by_cat"] is not None: on = (D["g"] == s["by_cat"]).values; base = ss.get_smooth(s["x0"] * 0 + D[k.split("_")[0]].values, s["X"].shape[1] + 1 + (kd == "cc"), kd)[0]; cx.close("factor smooth is zero outside its level", s["X"][~on], 0., atol=0); cx.close("factor smooth on its level", s["X"][on], base["X"][on], rtol=1e-9, atol=1e-10)


@workload("cross-validation criteria", quick=200, thorough=5000)
def crit(cx):
    r = cx.rng; n = int(r.integers(20, 60)); p = int(r.integers(3, 9)); X = r.normal(size=(n, p)); S = np.diff(np.eye(p), 2, axis=0); S = S.T @ S; y = r.normal(size=n) + X[:, 0]; a = float(np.exp(r.normal() * 2)); gm = float(r.uniform(1, 1.6)); cx.case((p,)); A = X @ np.linalg.solve(X.T @ X + a * S, X.T); rs = ((y - A @ y) ** 2).sum(); cx.close("gcv", sp.gcv(a, X, y, S), n * rs / (n - np.trace(A)) ** 2, rtol=1e-9); cx.close("inflated gcv", sp.double_gcv(a, X, y, S, gamma=gm), n * rs / (n - gm * np.trace(A)) ** 2, rtol=1e-9)
    cx.deriv("gcv gradient", sp.grad_gcv(a, X, y, S), lambda t: sp.gcv(float(np.ravel(t)[0]), X, y, S), np.array([a]), rtol=1e-5, atol=1e-8, scale=a); cx.deriv("inflated gcv gradient", sp.grad_double_gcv(a, X, y, S, gamma=gm), lambda t: sp.double_gcv(float(np.ravel(t)[0]), X, y, S, gamma=gm), np.array([a]), rtol=1e-5, atol=1e-8, scale=a)
