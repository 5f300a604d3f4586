"""C09: links and exponential families (both GLM generations) against scipy distributions and numerical derivatives of the next-lower order."""
import numpy as np, scipy as sp, scipy.stats as st
from vlib.mon import workload, nderiv
from pystatsm.pyglm import links as l1, families as f1
from pystatsm.pyglm2 import links as l2, families as f2

GEN = {1: (l1, f1), 2: (l2, f2)}
UNIT = ("logit", "probit", "cloglog", "logcomp")


def make_link(r, L, unit=None):
    names = ["identity", "logit", "probit", "log", "reciprocal", "cloglog", "power", "logcomp", "negbin"]
    nm = names[int(r.integers(len(names)))]; par = None
    if nm == "power": par = float(r.choice([-2, -1, -.5, 0, .5, 1, 2, 3, 1.7])); k = L.PowerLink(par)
    elif nm == "negbin": par = float(np.exp(r.normal() * .7)); k = L.NegativeBinomialLink(par)
    else: k = dict(identity=L.IdentityLink, logit=L.LogitLink, probit=L.ProbitLink, log=L.LogLink, reciprocal=L.ReciprocalLink, cloglog=L.CloglogLink, logcomp=L.LogComplementLink)[nm]()
    return nm, par, k


def ref_link(nm, par):   # independent definitions
    return dict(identity=lambda m: m, logit=sp.special.logit, probit=sp.special.ndtri, log=np.log, reciprocal=lambda m: 1 / m, cloglog=lambda m: np.log(-np.log1p(-m)), logcomp=np.log1p and (lambda m: np.log(1 - m)), power=(lambda m: np.log(m) if par == 0 else m ** par), negbin=lambda m: np.log(m / (m + 1 / par)))[nm]


def draw_mu(r, nm, n, wide=False):
    if nm in UNIT:
        m = sp.special.expit(r.normal(size=n) * (3 if wide else 1.2)); return np.clip(m, 1e-4, 1 - 1e-4) if not wide else m
    if nm == "identity" : return r.normal(size=n) * (10 if wide else 1)
    return np.exp(r.normal(size=n) * ((6 if nm == "log" and r.random() < .5 else 1.5) if wide else .6))


def dcheck(cx, name, got, f, x, scale, rtol=2e-6):
    """got[i] = d f(x)[i] / d x[i] for an elementwise f (one sweep, all coordinates at once)."""
    est = []
    for h in (3e-3, 1e-3):
        s = h * scale; C, O = np.array([-1, 9, -45, 45, -9, 1]) / 60, np.array([-3, -2, -1, 1, 2, 3]); est.append(sum(c * f(x + o * s) for c, o in zip(C, O)) / s)
    err = np.abs(est[0] - est[1]); fm = np.abs(f(x)); w = est[0]
    tol = rtol * (np.abs(w) + 1e-3 * fm / np.abs(scale)) + 20 * err + 3e-12 * fm / (1e-3 * np.abs(scale)) + 1e-7
    fin = np.isfinite(w) & np.isfinite(err); got = np.broadcast_to(np.asarray(got, float), x.shape)
    bad = fin & ~(np.abs(got - w) <= tol)
    cx.ok(name, not bad.any(), lambda: f"at {x[bad][0]!r}: got {got[bad][0]!r} numerical {w[bad][0]!r}")


@workload("links", quick=1200, thorough=20000, shards=3)
def links(cx):
    r = cx.rng; g = int(r.integers(1, 3)); nm, par, k = make_link(r, GEN[g][0]); wide = bool(r.integers(2)); n = 12; mu = draw_mu(r, nm, n, wide); ref = ref_link(nm, par); cx.case([g, nm, par, wide], mu=mu); m0 = mu.copy()
    eta = k.link(mu); cx.close("link", eta, ref(mu), 1e-8, 1e-10); keep = np.abs(eta) < 25; back = k.inv_link(np.array(eta)); cx.close("inverse of link", np.where(keep, back, 0), np.where(keep, mu, 0), 1e-7, 1e-12)
    sc = np.abs(mu) if nm not in UNIT else mu * (1 - mu); sc = np.maximum(sc, .05) if nm == "identity" else sc; es = np.minimum(1.0, .5 * np.abs(eta)) if nm in ("reciprocal", "power", "logcomp", "negbin") else np.ones(n)
    if nm in ("reciprocal", "power"): es = .3 * np.abs(eta)
    if nm == "identity": es = np.ones(n)
    if nm == "cloglog": es = np.minimum(1, np.exp(-eta))
    cx.close("forward and inverse slopes reciprocal", np.where(keep, k.dlink(mu) * k.dinv_link(eta), 1), np.ones(n), 1e-6)
    ok = keep & (np.abs(eta) > 1e-3); x, s = eta[ok], es[ok]
    if ok.any(): dcheck(cx, "slope of the inverse link", k.dinv_link(x), k.inv_link, x, s); dcheck(cx, "curvature of the inverse link", k.d2inv_link(x), k.dinv_link, x, s)
    for o, a, b in ((1, "link", "dlink"), (2, "dlink", "d2link"), (3, "d2link", "d3link"), (4, "d3link", "d4link")):
        f = getattr(k, a); dcheck(cx, f"link derivative of order {o}", getattr(k, b)(mu), f, mu, .3 * sc)
    cx.ok("argument untouched", np.array_equal(mu, m0))
    z = np.r_[-30., -8, -1, 0, 1, 8, 30] if nm in ("logit", "probit", "cloglog") else None
    if z is not None: m = k.inv_link(z.copy()); cx.ok("probabilities in range and monotone", np.all((m >= 0) & (m <= 1)) and np.all(np.diff(m) >= 0), m); cx.close("tail probabilities", m[:4], dict(logit=sp.special.expit, probit=sp.special.ndtr, cloglog=lambda e: -np.expm1(-np.exp(e)))[nm](z)[:4], 1e-6, 1e-15)
    if nm == "logit": m = k.inv_link(np.array([-800., -710, 710, 800])); cx.close("extreme linear predictor", m, [0, 0, 1, 1], 0, 1e-12)


FAM = {"Gaussian": (("identity", "log", "reciprocal", "logit", "power", "cloglog"), 0), "InverseGaussian": (("power", "log", "identity+", "reciprocal"), 0), "Gamma": (("reciprocal", "log", "identity+", "power"), 0),
       "Poisson": (("log", "identity+", "power"), 1), "Binomial": (("logit", "probit", "cloglog", "logcomp", "log-", "identity-"), 1), "NegativeBinomial": (("log", "negbin", "identity+", "power"), 1)}


def case_fam(cx):
    r = cx.rng; g = int(r.integers(1, 3)); L, F = GEN[g]; fam = list(FAM)[int(r.integers(6))]; opts, disc = FAM[fam]
    while True:
        nm, par, k = make_link(r, L)
        if any(o.rstrip("+-") == nm for o in opts): break
    n = 14; tag = [o for o in opts if o.rstrip("+-") == nm][0]
    if fam == "Binomial" or nm in UNIT: mu = sp.special.expit(r.normal(size=n) * 1.2)
    elif fam == "Gaussian" and nm == "identity": mu = r.normal(size=n) * 3
    else: mu = np.exp(r.normal(size=n) * .7)
    disp = float(np.exp(r.normal() * .7)) if fam == "NegativeBinomial" else 1.0; phi = float(np.exp(r.normal() * .6)) if not disc else 1.0
    if nm == "negbin": k = L.NegativeBinomialLink(disp); par = None
    wk = int(r.integers(3)); w = np.ones(n) if wk == 0 else r.integers(1, 6, n).astype(float) if (wk == 1 or fam == "Binomial") else np.exp(r.normal(size=n) * .5)
    if fam == "Gaussian": y = mu + r.normal(size=n) * np.sqrt(phi)
    elif fam == "InverseGaussian": y = r.wald(mu, 1 / phi)
    elif fam == "Gamma": y = r.gamma(1 / phi, mu * phi)
    elif fam == "Poisson": y = r.poisson(mu).astype(float)
    elif fam == "NegativeBinomial": y = r.negative_binomial(1 / disp, 1 / (1 + disp * mu)).astype(float)
    else: y = r.binomial(w.astype(int), mu) / w
    y[:] = np.maximum(y, 1e-3) if fam in ("Gamma", "InverseGaussian") else y
    cx.case([g, fam, nm, par, wk], y=y, mu=mu)
    return r, g, fam, nm, k, getattr(F, fam)(link=k), y, mu, w, phi, disp


def nll(fam, y, mu, w, phi, disp):
    if fam == "Gaussian": return -st.norm.logpdf(y, mu, np.sqrt(phi / w))
    if fam == "InverseGaussian": return -st.invgauss.logpdf(y, mu * phi / w, scale=w / phi)
    if fam == "Gamma": return -st.gamma.logpdf(y, w / phi, scale=mu * phi / w)
    if fam == "Poisson": return -w * st.poisson.logpmf(y, mu)
    if fam == "NegativeBinomial": return -w * st.nbinom.logpmf(y, 1 / disp, 1 / (1 + disp * mu))
    return -st.binom.logpmf(np.round(w * y), w, mu)


def VF(fam, mu, disp): return dict(Gaussian=np.ones_like(mu), InverseGaussian=mu ** 3, Gamma=mu ** 2, Poisson=mu, Binomial=mu * (1 - mu), NegativeBinomial=mu + disp * mu ** 2)[fam]


@workload("families", quick=1600, thorough=24000, shards=4)
def fams(cx):
    r, g, fam, nm, k, f, y, mu, w, phi, disp = case_fam(cx); n = len(y); y0, mu0, w0 = y.copy(), mu.copy(), w.copy(); kw = dict(mu=mu, phi=phi, dispersion=disp, weights=w); T = nll(fam, y, mu, w, phi, disp); eta = k.link(mu)
    if g == 1: f.weights = np.full(n, 7.0) if r.random() < .3 else 1.0
    cx.close("negative log-likelihood", f.full_loglike(y, **kw), T.sum(), 1e-8, 1e-8); cx.close("negative log-likelihood, cases", f._full_loglike(y, **kw), T, 1e-8, 1e-8); m2 = mu * np.exp(.05 * r.normal(size=n)) if fam != "Binomial" else np.clip(mu * np.exp(.05 * r.normal(size=n)), 1e-3, .999)
    cx.close("kernel differs by a constant in the mean", f.loglike(y, **kw) - f.loglike(y, **{**kw, "mu": m2}), T.sum() - nll(fam, y, m2, w, phi, disp).sum(), 1e-6, 1e-7)
    V = VF(fam, mu, disp); cx.close("variance function", f.var_func(mu=mu, dispersion=disp), V, 1e-11)
    chain = [lambda m: f.var_func(mu=m, dispersion=disp), lambda m: f.dvar_dmu(m, disp) + 0 * m, lambda m: f.d2var_dmu2(m, disp) + 0 * m, lambda m: f.d3var_dmu3(m, disp) + 0 * m, lambda m: f.d4var_dmu4(m, disp) + 0 * m]
    sc = .3 * (mu * (1 - mu) if fam == "Binomial" else np.abs(mu) + .05 * (fam == "Gaussian"))
    for o in range(1, 5): dcheck(cx, f"variance derivative of order {o}", chain[o](mu), chain[o - 1], mu, sc)
    if g == 2:
        for o in range(1, 5): vd = f.var_derivs(mu, disp, o); cx.ok("variance derivatives bundle", len(vd) == o + 1 and all(np.allclose(v, c(mu), 1e-10, 1e-12) for v, c in zip(vd, chain)))
    sat = np.array([nll(fam, y[[i]], y[[i]] if not (fam in ("Poisson", "NegativeBinomial") and y[i] == 0) else np.array([1e-300]), w[[i]], phi, disp)[0] for i in range(n)]); D = 2 * phi * (T - sat)
    cx.close("deviance", f.deviance(y, mu=mu, weights=w, phi=phi, dispersion=disp), D, 1e-7, 1e-7 * (1 + np.abs(T).max())); Dc = np.asarray(f.deviance(y, mu=mu, weights=w, phi=phi, dispersion=disp)); cx.ok("deviance non-negative", np.all(Dc > -1e-9 * (1 + np.abs(T).max())))
    if np.all(Dc > 1e-8): cx.close("deviance residuals", f.deviance_resid(y, **kw), np.sign(y - mu) * np.sqrt(D), 1e-5, 1e-6); cx.close("signed residuals", f.signed_resid(y, **kw), np.sign(y - mu) * np.sqrt(D), 1e-5, 1e-6)
    cx.close("Pearson residuals", f.pearson_resid(y, **kw), (y - mu) * np.sqrt(w / V), 1e-9, 1e-12); cx.close("Pearson statistic", f.pearson_chi2(y, **kw), np.sum(w * (y - mu) ** 2 / V), 1e-9)
    if g == 2: cx.close("variance", f.variance(mu, w, phi, disp), V * phi / w, 1e-10)
    else: cx.close("variance", f.variance(mu=mu, phi=phi, dispersion=disp), V * phi, 1e-10)
    # scoring weights
    g1 = 1 / k.dinv_link(eta); es = np.minimum(.3, .3 * np.abs(eta)) if nm in ("reciprocal", "power", "logcomp", "negbin", "identity") else np.full(n, .3)
    if nm == "identity": es = sc
    ll = lambda e: nll(fam, y, k.inv_link(e), w, phi, disp); G = f.gw(y, mu=mu, phi=phi, dispersion=disp, weights=w); H = f.hw(y, mu=mu, phi=phi, dispersion=disp, weights=w); use = np.abs(eta) > 1e-3
    if use.all():
        dcheck(cx, "first derivative in the linear predictor", G, ll, eta, es); dcheck(cx, "second derivative in the linear predictor", H, lambda e: f.gw(y, mu=k.inv_link(e), phi=phi, dispersion=disp, weights=w), eta, es)
    a, b = f.get_ghw(y, mu=mu, phi=phi, dispersion=disp, weights=w); cx.close("bundled derivatives", a, G, 1e-9, 1e-12); cx.close("bundled derivatives", b, H, 1e-9, 1e-12)
    cx.close("expected weights", f.get_ehw(y, mu, phi=phi, dispersion=disp, weights=w), w / (phi * V * g1 ** 2), 1e-8)
    A = lambda m: f.get_a(y, m, dispersion=disp); W = lambda e: f.get_w(y, k.inv_link(e), dispersion=disp); g_ = f.get_g(y, mu, dispersion=disp); cx.close("working-response factor", g_, k.dlink(mu) / A(mu), 1e-9); cx.close("working weights", W(eta), f.hw(y, mu=mu, phi=1.0, dispersion=disp, weights=np.ones(n)), 1e-8, 1e-10)
    dcheck(cx, "first derivative of the weight factor", f.da_dmu(y, mu, dispersion=disp), A, mu, sc); dcheck(cx, "second derivative of the weight factor", f.d2a_dmu2(y, mu, dispersion=disp), lambda m: f.da_dmu(y, m, dispersion=disp), mu, sc)
    if use.all(): dcheck(cx, "first derivative of the working weights", f.dw_deta(y, mu, dispersion=disp), W, eta, es); dcheck(cx, "second derivative of the working weights", f.d2w_deta2(y, mu, dispersion=disp), lambda e: f.dw_deta(y, k.inv_link(e), dispersion=disp), eta, es)
    # scale derivatives
    if fam in ("Gaussian", "InverseGaussian", "Gamma", "NegativeBinomial"):
        tau = np.log(disp if fam == "NegativeBinomial" else phi); ft = lambda t: np.array([nll(fam, y, mu, w, np.exp(t[0]) if fam != "NegativeBinomial" else 1.0, np.exp(t[0]) if fam == "NegativeBinomial" else 1.0).sum()])
        cx.deriv("log-scale derivative", np.reshape(f.dtau(tau, y, mu, weights=w), (1, 1)), ft, [tau], scale=[.3]); cx.deriv("second log-scale derivative", np.reshape(f.d2tau(tau, y, mu, weights=w), (1, 1)), lambda t: np.array([f.dtau(t[0], y, mu, weights=w)]), [tau], scale=[.3]); cx.close("reduced is the sum", np.sum(f.dtau(tau, y, mu, weights=w, reduce=False)), f.dtau(tau, y, mu, weights=w), 1e-9, 1e-9)
    if fam in ("Gaussian", "InverseGaussian", "Gamma"):
        LS = lambda p: np.array([f.llscale(p[0], y)]); cx.close("saturated log-likelihood", LS([phi])[0], nll(fam, y, y, np.ones(n), phi, 1).sum(), 1e-8, 1e-7); cx.deriv("saturated log-likelihood derivative", np.reshape(f.dllscale(phi, y), (1, 1)), LS, [phi], scale=[phi * .3]); cx.deriv("saturated log-likelihood second derivative", np.reshape(f.d2llscale(phi, y), (1, 1)), lambda p: np.array([f.dllscale(p[0], y)]), [phi], scale=[phi * .3])
    q = r.uniform(.02, .98, n); f.weights = w if fam == "Binomial" else f.weights
    dist = dict(Gaussian=lambda: st.norm(mu, np.sqrt(phi)), InverseGaussian=lambda: st.invgauss(mu * phi, scale=1 / phi), Gamma=lambda: st.gamma(1 / phi, scale=mu * phi), Poisson=lambda: st.poisson(mu), NegativeBinomial=lambda: st.nbinom(1 / disp, 1 / (1 + disp * mu)), Binomial=lambda: st.binom(w, mu))[fam]()
    cx.close("quantiles", f.ppf(q, mu, *({"NegativeBinomial": [disp]}.get(fam, [] if FAM[fam][1] else [phi]))), dist.ppf(q) / (w if fam == "Binomial" else 1), 1e-6, 1e-8)
    cx.ok("arguments untouched", np.array_equal(y, y0) and np.array_equal(mu, mu0) and np.array_equal(w, w0))


@workload("family simulation", quick=60, thorough=600, shards=1)
def sim(cx):
    r, g, fam, nm, k, f, y, mu, w, phi, disp = case_fam(cx); m = mu[:3]; B = 20000; M = np.repeat(m, B); kw = {"phi": phi} if fam in ("Gaussian", "InverseGaussian", "Gamma") else {"dispersion": disp} if fam == "NegativeBinomial" else {}
    if fam == "Binomial": f.weights = np.repeat(w[:3].astype(int), B)
    s = int(r.integers(1 << 31)); Y = f.rvs(M, rng=np.random.default_rng(s), **kw); Y2 = f.rvs(M, rng=np.random.default_rng(s), **kw); cx.ok("same generator state, same draws", np.array_equal(Y, Y2)); Y = Y.reshape(3, B); V = VF(fam, m, disp) * phi / (w[:3] if fam == "Binomial" else 1)
    cx.ok("mean of draws", np.all(np.abs(Y.mean(1) - m) < 7 * np.sqrt(V / B)), lambda: (Y.mean(1), m)); se = np.sqrt(np.maximum(((Y - Y.mean(1)[:, None]) ** 4).mean(1) - Y.var(1) ** 2, 1e-12) / B); cx.ok("variance of draws", np.all(np.abs(Y.var(1) - V) < 9 * se + .02 * V), lambda: (fam, Y.var(1), V))
