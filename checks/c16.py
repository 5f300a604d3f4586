"""C16: additive models: penalised stationarity, own REML objective, numerical derivatives at every order."""
import numpy as np, scipy as sp, pandas as pd, scipy.stats as st, warnings, scipy.linalg as sl
from vlib.mon import workload, nderiv
from vlib import glmo as go
from pystatsm.pygam.gam import GAM
from pystatsm.pygam.gaussian_additive_model import GaussianAdditiveModel as GA
from pystatsm.pygam import gauls as gl
from pystatsm.pyglm import families as fam1, links as l1

CONF = [("Gaussian", "identity"), ("Gaussian", "log"), ("Gamma", "log"), ("InverseGaussian", "log"), ("Poisson", "log"), ("Binomial", "logit"), ("Binomial", "probit"), ("Binomial", "cloglog"), ("Gamma", "reciprocal"), ("Poisson", "sqrt")]
RCONF = [c for c in CONF if c[0] in ("Gaussian", "Gamma", "InverseGaussian")]
def flink(link): return {"identity": l1.IdentityLink, "log": l1.LogLink, "logit": l1.LogitLink, "probit": l1.ProbitLink, "cloglog": l1.CloglogLink, "reciprocal": l1.ReciprocalLink}[link]() if link not in ("sqrt", "invsq") else l1.PowerLink({"sqrt": .5, "invsq": -2.}[link])


def frame(r, n):
    D = pd.DataFrame(dict(x0=r.random(n), x1=r.normal(size=n).clip(-2.5, 2.5), x2=r.uniform(-2, 5, n), z=r.normal(size=n) * .5, g=r.choice(list("abc"), n))); D.loc[:2, "g"] = list("abc"); D["h"] = r.choice(["u", "v"], n)
    return D


def formula(r, D, lo=1, small=False, by=True):
    """Random smooth formula and a matching smooth signal."""
    m = int(r.integers(lo, 3 if small else 4)); t = []; f = np.zeros(len(D)); sig = []; z = [lambda u: np.sin(2 * np.pi * u), lambda u: .6 * np.tanh(u) * 1.2, lambda u: .25 * (u - 1.5)]
    for j, v in enumerate(["x0", "x1", "x2"][:m]):
        k = str(r.choice(["cr", "cr", "cc", "bs"])); df = int(r.integers(5, 7 if small else 10)); b = by and r.random() < .2 and not sig.count(True); t.append(f"s({v}, df={df}, kind='{k}'" + (", by=g)" if b else ")")); sig += [k, b]; f += (z[j](D[v].values) if k != "cc" else np.cos(2 * np.pi * (D[v].values - D[v].min()) / np.ptp(D[v].values))) * ((1 + .5 * (D["g"] == "a").values) if b else 1)
    par = str(r.choice(["1", "z", "C(h)", "z+C(h)"])); f += (.4 * D["z"].values if "z" in par else 0) + (.3 * (D["h"] == "u").values if "h" in par else 0)
    return "+".join([par] + t), f * .6, tuple(sig) + (par,)


def response(r, fam, link, f, D):
    c = {"reciprocal": 1.6, "sqrt": 2.2}.get(link, 0.); e = c + f * {"reciprocal": .4, "sqrt": .6}.get(link, 1.) + (1.2 if (fam, link) == ("Gaussian", "log") else 0); mu = go.INV[link](e); n = len(f)
    return dict(Gaussian=lambda: mu + r.normal(size=n) * (.2 if link == "log" else .5), Gamma=lambda: r.gamma(4., mu / 4), InverseGaussian=lambda: r.wald(mu, 8.), Poisson=lambda: r.poisson(mu * 1.).astype(float), Binomial=lambda: (r.random(n) < mu) * 1.)[fam]()


def setup(cx, small=False, confs=None, n=None):
    r = cx.rng; fam, link = (confs or CONF)[int(r.integers(len(confs or CONF)))]; n = n or int(r.integers(90, 220)); D = frame(r, n); F, f, sig = formula(r, D, small=small); D["y"] = response(r, fam, link, f, D)
    if fam == "Gaussian" and link == "log" and D["y"].min() <= .1: cx.skip("non-positive response for a log link")
    return r, fam, link, D, F, sig, GAM("y~" + F, D, family=getattr(fam1, fam)(link=flink(link)))


class Pen:
    """Own penalised likelihood: eta=Xb, quadratic penalty S."""
    def __init__(s, fam, link, X, y, Sj): s.fam, s.link, s.X, s.y, s.Sj = fam, link, X, y, Sj
    def grad(s, b, S): e = s.X @ b; mu = go.INV[s.link](e); q = (s.y - mu) * go.DINV[s.link](e) / go.V(s.fam, mu, 1.); return -s.X.T @ q + S @ b, np.abs(s.X).T @ np.abs(q) + np.abs(S) @ np.abs(b)
    def H(s, b, S):
        e = s.X @ b; q = lambda t: (s.y - go.INV[s.link](t)) * go.DINV[s.link](t) / go.V(s.fam, go.INV[s.link](t), 1.)
        h = 1e-3; dq = (45 * (q(e + h) - q(e - h)) - 9 * (q(e + 2 * h) - q(e - 2 * h)) + (q(e + 3 * h) - q(e - 3 * h))) / (60 * h); return (s.X * -dq[:, None]).T @ s.X + S
    def fit(s, b, S, it=30):
        for _ in range(it):
            d = np.linalg.solve(s.H(b, S), s.grad(b, S)[0]); b = b - d
            if np.abs(d).max() < 1e-13 * (1 + np.abs(b).max()): break
        return b
    def S(s, lam): return np.einsum("i,ijk->jk", lam, s.Sj)
    def reml(s, th, b0):
        """-log of the Laplace-approximate restricted likelihood, up to a constant."""
        lam, phi = np.exp(th[:-1]), np.exp(th[-1]); S = s.S(lam); b = s.fit(b0, S); mu = go.INV[s.link](s.X @ b); nll = go.nll_i(s.fam, s.y, mu, np.ones(len(mu)), phi).sum() + b @ S @ b / (2 * phi); r = sum(np.linalg.matrix_rank(a) for a in s.Sj); ls = sum(np.linalg.matrix_rank(a) * l for a, l in zip(s.Sj, th[:-1])) - r * th[-1]
        return nll + .5 * (np.linalg.slogdet(s.H(b, S) / phi)[1] - ls)


def lams(r, m, lo=-4, hi=8): return m.theta[:-1] * 0 + r.uniform(lo, hi, m.ns)


@workload("penalised likelihood", quick=220, thorough=5000, timeout=60)
def pen(cx):
    r, fam, link, D, F, sig, m = setup(cx); cx.case((fam, link) + sig, formula=F); P = Pen(fam, link, m.X, m.y, m.S); rho = lams(r, m, -6, 14); lam = np.exp(rho); S = P.S(lam); cx.closen("penalty matrix", m.get_penalty_mat(lam), S, rtol=1e-12)
    b, eta, mu, dev, conv, it = m.pirls(lam); cx.ok("finite coefficients", np.isfinite(b).all(), f"{fam} {link}")
    if not conv: cx.note("not converged"); cx.skip("did not report convergence at this smoothing parameter")
    if fam == "Binomial" and (mu.min() < 1e-7 or mu.max() > 1 - 1e-7) or link in ("reciprocal", "sqrt") and eta.min() < .02: cx.skip("fitted means at the edge of the family's range")
    g, sc = P.grad(b, S); w = np.linalg.eigvalsh(P.H(b, S))
    if w[0] <= 1e-9 * w[-1]: cx.skip("penalised likelihood is not locally concave here")
    step = np.linalg.solve(P.H(b, S), g); se = np.sqrt(np.diag(np.linalg.inv(P.H(b, S)))); cx.close("coefficients are stationary (Newton step in standard errors)", np.abs(step / se).max(), 0., atol=1e-3)
    cx.close("linear predictor", eta, m.X @ b, rtol=1e-9, atol=1e-9); cx.close("mean", mu, go.INV[link](eta), rtol=1e-9)
    d = m.f.deviance(m.y, mu=mu).sum() + b @ S @ b; cx.close("penalised deviance", dev, d, rtol=1e-9); t = b + r.normal(size=len(b)) * .02 * se; cx.closen("score", m.grad_dev_beta(t, S), P.grad(t, S)[0], rtol=1e-8); H0, H1 = m.hess_dev_beta(t, S); cx.closen("penalised Hessian", H1, P.H(t, S), rtol=1e-6); cx.closen("unpenalised Hessian", H0, H1 - S, rtol=1e-6, atol=1e-8 * np.abs(S).max())
    z, wt = m.get_wz(eta); cx.closen("working weights give the Hessian", (m.X * wt[:, None]).T @ m.X + S, P.H(b, S), rtol=1e-6)


@workload("smoothing derivatives", quick=90, thorough=1500, timeout=120)
def sder(cx):
    r, fam, link, D, F, sig, m = setup(cx, small=True, n=int(cx.rng.integers(80, 130)), confs=RCONF); cx.case((fam, link) + sig, formula=F); P = Pen(fam, link, m.X, m.y, m.S); rho = lams(r, m, -2, 6); th = np.r_[rho, r.normal()]; lam = np.exp(rho); b, _, _, _, conv, _ = m.pirls(lam)
    if not conv: cx.skip("did not report convergence")
    bs = P.fit(b, P.S(lam)); w = np.linalg.eigvalsh(P.H(bs, P.S(lam)))
    if not np.isfinite(bs).all() or w[0] <= 1e-6 * w[-1] or np.abs(bs - b).max() > 1e-3 * (1 + np.abs(b).max()): cx.skip("ill-conditioned penalised fit")
    B = lambda z: P.fit(bs, P.S(np.exp(z))); one = np.ones(m.ns); cx.deriv("coefficients wrt smoothing", m.grad_beta_rho(bs, lam), B, rho, rtol=1e-5, atol=1e-7, scale=one); B1 = lambda z: m.grad_beta_rho(B(z), np.exp(z)); b2 = np.asarray(m.hess_beta_rho(bs, lam)); cx.deriv("second derivatives of coefficients", np.moveaxis(b2, -1, 0), B1, rho, rtol=1e-5, atol=1e-7, scale=one)
    b3 = np.asarray(m.dhess_beta_rho(bs, lam)); cx.deriv("third derivatives of coefficients", b3.transpose(3, 0, 1, 2), lambda z: np.moveaxis(np.asarray(m.hess_beta_rho(B(z), np.exp(z))), -1, 0), rho, rtol=1e-5, atol=1e-7, scale=one)
    own = lambda z: P.reml(z, bs); t2 = th + r.normal(size=len(th)) * .3; pure = fam in ("Gaussian", "Gamma", "InverseGaussian"); c1 = np.ones(len(th))
    if pure: cx.close("restricted likelihood differences", m.reml(th) - m.reml(t2), own(th) - own(t2), rtol=1e-6, atol=1e-6); cx.deriv("criterion gradient", m.gradient(th), own, th, rtol=1e-5, atol=1e-6, scale=c1)
    else: t2[-1] = th[-1] = 0.; cx.close("restricted likelihood differences", m.reml(th) - m.reml(t2), own(th) - own(t2), rtol=1e-6, atol=1e-6); cx.deriv("criterion gradient", m.gradient(th)[:-1], lambda z: own(np.r_[z, 0.]), th[:-1], rtol=1e-5, atol=1e-6, scale=c1[:-1])
    cx.deriv("gradient is the slope of the criterion", m.gradient(th), m.reml, th, rtol=1e-5, atol=1e-5, scale=c1); cx.deriv("criterion Hessian", m.hessian(th), m.gradient, th, rtol=1e-5, atol=1e-5, scale=c1); cx.close("log determinant of the penalty", m.logdetS(lam, np.exp(th[-1])) - m.logdetS(np.ones(m.ns), 1.), sum(np.linalg.matrix_rank(a) * (q - th[-1]) for a, q in zip(m.S, rho)), rtol=1e-9, atol=1e-9)


def optimum(cx, g, info, th, lo, hi):
    """First-order optimality with flat directions allowed at large/small smoothing."""
    free = ~(((th <= lo + .5) & (g > -1e-2)) | ((th >= hi - .5) & (g < 1e-2)))
    cx.close("optimum has zero gradient", np.abs(g[free]).max() if free.any() else 0., 0., atol=1e-2, detail=f"{g} {th} {info}")


@workload("GAM fits", quick=64, thorough=1200, timeout=200)
def fits(cx):
    r, fam, link, D, F, sig, m = setup(cx, small=True, confs=CONF[:4]); cx.case((fam, link) + sig, formula=F); D0 = D.copy(); m.fit(); cx.ok("data untouched", D.equals(D0), "data modified"); P = Pen(fam, link, m.X, m.y, m.S); th = m.theta; lam, phi = np.exp(th[:-1]), np.exp(th[-1]); S = P.S(lam); b = m.beta; H = P.H(b, S); g = P.grad(b, S)[0]; se = np.sqrt(np.diag(np.linalg.inv(H))); cx.close("coefficients are stationary", np.abs(np.linalg.solve(H, g) / se).max(), 0., atol=1e-3); bs = P.fit(b, S)
    gr, err = nderiv(lambda z: np.array(P.reml(z, bs)), th, scale=np.ones(len(th)))
    if np.max(err) < 1e-3: optimum(cx, gr, f"{fam} {link} {m.opt.success} {m.opt.status} {m.opt.nit} own={P.reml(th, bs)} theirs={m.reml(th)} {m.gradient(th)}", th, np.r_[np.full(m.ns, -30.), -50], np.r_[np.full(m.ns, 22.), 50])
    X = m.X; W = H - S; F_ = np.linalg.solve(H, W); cx.close("effective degrees of freedom", m.edf, np.trace(F_), rtol=1e-4); cx.ok("effective degrees of freedom between null space and basis size", m.mp - 1e-3 <= m.edf <= m.nx + 1e-6 and np.linalg.eigvalsh(W)[0] > -1e-6 * np.linalg.eigvalsh(W)[-1] or np.linalg.eigvalsh(W)[0] < 0, f"{m.mp} {m.edf} {m.nx}"); cx.closen("Bayesian covariance", m.Vb, phi * np.linalg.inv(H), rtol=1e-3); cx.closen("frequentist covariance", m.Vs, phi * np.linalg.solve(H, W) @ np.linalg.inv(H), rtol=1e-3)
    for k, s in m.smooths.items(): cx.close("effective degrees of freedom of a smooth", m.res_smooths.loc[k, "edf"], np.diag(F_)[s["ix"]].sum(), rtol=1e-3, atol=1e-4)
    J, _ = nderiv(lambda z: P.fit(bs, P.S(np.exp(z))), th[:-1], scale=np.ones(m.ns))
    Vp = np.linalg.inv(m.hessian(th))
    if np.linalg.eigvalsh(m.hessian(th))[0] > 1e-2: cx.closen("smoothing-corrected covariance", m.Vc, phi * np.linalg.inv(H) + J @ Vp[:-1, :-1] @ J.T, rtol=1e-3); cx.close("reported standard errors", m.res["SE"].values, np.sqrt(np.r_[np.diag(m.Vc), np.diag(Vp)]), rtol=1e-4)
    cx.close("reported coefficients", m.res["param"].values, np.r_[b, th], rtol=1e-9); mu = go.INV[link](X @ b); cx.close("r squared", m.rsquared, 1 - ((m.y - mu) ** 2).sum() / ((m.y - m.y.mean()) ** 2).sum(), rtol=1e-6); dv = lambda u: 2 * (go.nll_i(fam, m.y, u, np.ones(len(u)), 1.) - go.nll_i(fam, m.y, m.y, np.ones(len(u)), 1.)).sum(); cx.close("explained deviance", m.deviance_explained, 1 - dv(mu) / dv(0 * mu + m.y.mean()), rtol=1e-5, atol=1e-6)
    comp = m.get_smooth_comps(); k = [k for k, s in m.smooths.items() if s["by_cat"] is None]
    for q in k:
        c = comp[q]; s = m.smooths[q]; x = D[q].values; cc = m.get_smooth_comps([q], data={q: x}, ci=90)[q]; cx.close("component curve at the data", cc[:, 1], m.X[:, s["ix"]] @ b[s["ix"]], rtol=1e-7, atol=1e-8); cx.close("component band", cc[:, 2], st.norm.ppf(.95) * np.sqrt(np.einsum("ij,jk,ik->i", m.X[:, s["ix"]], m.Vc[np.ix_(s["ix"], s["ix"])], m.X[:, s["ix"]])), rtol=1e-6, atol=1e-9)


@workload("Gaussian additive", quick=60, thorough=1500, timeout=120, shards=3)
def gauss(cx):
    r = cx.rng; D = frame(r, int(r.integers(80, 200))); F, f, sig = formula(r, D); D["y"] = f * 2 + r.normal(size=len(D)) * float(np.exp(r.normal() * .5)); cx.case(sig, formula=F); m = GA("y~" + F, D); P = Pen("Gaussian", "identity", m.X, m.y, m.S); th = np.r_[r.uniform(-3, 8, m.ns), r.normal()]; t2 = th + r.normal(size=len(th)); c1 = np.ones(len(th)); own = lambda z: P.reml(z, np.zeros(m.nx)); cx.close("restricted likelihood differences", m.reml(th) - m.reml(t2), own(th) - own(t2), rtol=1e-7, atol=1e-6); cx.deriv("criterion gradient", m.gradient(th), own, th, rtol=1e-5, atol=1e-6, scale=c1); cx.deriv("criterion Hessian", m.hessian(th), m.gradient, th, rtol=1e-5, atol=1e-6, scale=c1); g2 = GAM("y~" + F, D); cx.close("agrees with the general additive model", m.reml(th), g2.reml(th), rtol=1e-7, atol=1e-5)
    lam = np.exp(th[:-1]); S = P.S(lam); b = m.pirls(lam)[0]; V = m.X.T @ m.X + S; ref = np.linalg.solve(V, m.X.T @ m.y); cx.closen("penalised least squares", m.X @ b, m.X @ ref, rtol=1e-6); cx.deriv("coefficients wrt smoothing", m.grad_beta_rho(ref, lam), lambda z: P.fit(ref, P.S(np.exp(z))), th[:-1], rtol=1e-5, atol=1e-7, scale=c1[:-1])
    m.fit(); th = m.theta; g, err = nderiv(lambda z: np.array(own(z)), th, scale=c1)
    if np.max(err) < 1e-3: optimum(cx, g, None, th, np.full(len(th), -30.), np.full(len(th), 22.))
    S = P.S(np.exp(th[:-1])); V = m.X.T @ m.X + S; phi = np.exp(th[-1]); A = np.linalg.inv(V); cx.closen("fitted values", m.X @ m.beta, m.X @ np.linalg.solve(V, m.X.T @ m.y), rtol=1e-6); cx.close("effective degrees of freedom", m.edf, np.trace(A @ m.X.T @ m.X), rtol=1e-5); cx.closen("Bayesian covariance", m.Vb, phi * A, rtol=1e-5); J = m.grad_beta_rho(m.beta, np.exp(th[:-1]))
    if np.linalg.eigvalsh(m.hessian(th))[0] > 1e-2: C = J @ np.linalg.inv(m.hessian(th))[:-1, :-1] @ J.T; cx.closen("smoothing-corrected covariance", m.Vc, phi * A + C, rtol=1e-5); cx.closen("frequentist covariance", m.Vf, phi * A @ m.X.T @ m.X @ A + C, rtol=1e-5)


def ls_model(cx, fit=False):
    r = cx.rng; n = int(r.integers(100, 200) if fit else r.integers(60, 110)); D = frame(r, n); Fm, f, s1 = formula(r, D, lo=int(r.integers(0, 2)) if not fit else 1, small=True, by=not fit); Fs, h, s2 = formula(r, D, lo=0 if r.random() < .3 else 1, small=True, by=False)
    if "s(" not in Fm + Fs: Fm += "+s(x0, df=6)"
    ml = str(r.choice(["identity", "identity", "log"])); b = float(r.choice([.01, .01, .1])); sl_ = str(r.choice(["logb", "logb", "log"])); mu = f * 2 if ml == "identity" else np.exp(1 + .5 * f); D["y"] = mu + r.normal(size=n) * np.exp(.5 * h - 1); w = None if r.random() < .6 else r.integers(1, 4, n).astype(float)
    kw = dict(m_link=flink(ml), s_link=gl.LogbLink(b) if sl_ == "logb" else flink("log"), weights=w, weights_normalize=False if w is not None and r.random() < .6 else True); return r, D, Fm, Fs, ml, sl_, b, w, kw, gl.GauLS("y~" + Fm, "y~" + Fs, D, **kw), s1 + s2


def nll_ls(m, ml, sl_, b, w, norm):
    n = len(m.y); u = np.ones(n) if w is None else (w * n / w.sum() if norm else w)
    def f(t, each=False):
        e = m.m.X @ t[m.ixm]; s = m.s.X @ t[m.ixs]; mu = e if ml == "identity" else np.exp(e); tau = 1 / (np.exp(s) + b) if sl_ == "logb" else np.exp(s); v = -u * st.norm.logpdf(m.y, mu, 1 / tau); return v if each else v.sum()
    return f


@workload("location-scale derivatives", quick=70, thorough=1200, timeout=150)
def lsd(cx):
    r, D, Fm, Fs, ml, sl_, b, w, kw, m, sig = ls_model(cx); cx.case((ml, sl_, b, w is not None, kw["weights_normalize"]) + sig, m=Fm, s=Fs); f = nll_ls(m, ml, sl_, b, w, kw["weights_normalize"]); t = np.zeros(m.nx); t += r.normal(size=m.nx) * .15; t[m.ixm[0]] += 1.; S = m.get_penalty_mat(np.exp(r.uniform(-3, 3, m.ns))); cx.close("negative log-likelihood", m.loglike(t), f(t), rtol=1e-9, atol=1e-8); cx.close("penalised", m.penalized_loglike(t, S), f(t) + .5 * t @ S @ t, rtol=1e-9, atol=1e-8); one = np.ones(m.nx)
    cx.deriv("score", m.grad_ll_beta(t), f, t, rtol=1e-6, atol=1e-6, scale=.3); cx.deriv("Hessian", m.hess_ll_beta(t), m.grad_ll_beta, t, rtol=1e-6, atol=1e-6, scale=.3); cx.closen("penalised score", m.grad_pll_beta(t, S), m.grad_ll_beta(t) + S @ t, rtol=1e-10); cx.closen("penalised Hessian", m.hess_pll_beta(t, S), m.hess_ll_beta(t) + S, rtol=1e-10)
    L = m.ll_eta_derivs(t[m.ixm], t[m.ixs]); jm, js = m.ixm[0], m.ixs[0]; im = "Intercept" in m.m.x_varnames and m.m.X[:, 0].std() == 0
    for k in (2, 3, 4):
        for a, j, lo, hi in ((0, jm, 0, k), (1, js, 1, k + 1)):
            def g(c, k=k, j=j): q = t.copy(); q[j] += float(np.ravel(c)[0]); return np.asarray(m.ll_eta_derivs(q[m.ixm], q[m.ixs])[k - 2])
            D_, err = nderiv(g, np.zeros(1), scale=.3); got = np.asarray(L[k - 1])[:, lo:hi]; cx.ok(f"order-{k} predictor derivatives", np.all(np.abs(got - D_[..., 0]) <= 1e-5 * np.abs(D_).max() + 20 * err[..., 0] + 1e-7), f"wrt {'ms'[a]}")
    if w is not None and not kw["weights_normalize"]: R = D.loc[np.repeat(np.arange(len(D)), w.astype(int))].reset_index(drop=True); e, s = m.m.X @ t[m.ixm], m.s.X @ t[m.ixs]; i = np.repeat(np.arange(len(D)), w.astype(int)); m1 = f(t, True); cx.close("weights act as replication", m.loglike(t), sum((m1 / w)[i]), rtol=1e-9)


@workload("location-scale smoothing", quick=48, thorough=700, timeout=200, shards=6)
def lss(cx):
    r, D, Fm, Fs, ml, sl_, b, w, kw, m, sig = ls_model(cx); cx.case((ml, sl_, b, w is not None, kw["weights_normalize"]) + sig, m=Fm, s=Fs); rho = r.uniform(-1, 4, m.ns); lam = np.exp(rho); S = m.get_penalty_mat(lam); b0 = m.beta_rho(rho); f = nll_ls(m, ml, sl_, b, w, kw["weights_normalize"]); H = m.hess_pll_beta(b0, S); ev = np.linalg.eigvalsh(H); g = m.grad_pll_beta(b0, S)
    if ev[0] <= 1e-4: cx.skip("penalised likelihood not locally concave")
    if ev[-1] > 1e7 * ev[0]: cx.skip("ill-conditioned penalised fit")
    se = np.sqrt(np.diag(np.linalg.inv(H))); cx.close("coefficients are stationary", np.abs(np.linalg.solve(H, g) / se).max(), 0., atol=2e-2)
    def B(z, x0=b0):
        S = m.get_penalty_mat(np.exp(z)); x = x0.copy()
        for _ in range(25):
            H_ = m.hess_pll_beta(x, S)
            if not np.isfinite(H_).all() or np.linalg.cond(H_) > 1e13: return x * np.nan
            d = np.linalg.solve(H_, m.grad_pll_beta(x, S)); x = x - d
            if np.abs(d).max() < 1e-13: break
        return x
    bs = B(rho)
    if not np.abs(bs - b0).max() <= 1e-2: cx.skip("coefficients not refined")
    one = np.ones(m.ns)
    if not np.abs(bs - b0).max() <= 1e-2: cx.skip("ill-conditioned penalised fit")
    cx.deriv("coefficients wrt smoothing", m.grad_beta_rho(bs, lam), B, rho, rtol=1e-5, atol=1e-6, scale=one); cx.deriv("second derivatives of coefficients", np.moveaxis(np.asarray(m.hess_beta_rho(bs, lam)), -1, 0), lambda z: m.grad_beta_rho(B(z), np.exp(z)), rho, rtol=1e-5, atol=1e-6, scale=one)
    Hb = lambda z: m.hess_ll_beta(B(z)); cx.deriv("Hessian wrt smoothing", np.moveaxis(np.asarray(m.dhess(bs, lam)), 0, -1), Hb, rho, rtol=1e-5, atol=1e-5, scale=one); cx.deriv("second derivative of the Hessian", np.asarray(m.d2hess(bs, lam)).transpose(2, 3, 0, 1), lambda z: np.moveaxis(np.asarray(m.dhess(B(z), np.exp(z))), 0, -1), rho, rtol=1e-5, atol=1e-5, scale=one)
    rk = [np.linalg.matrix_rank(a) for a in m.S]; ps = [np.log(np.sort(np.linalg.eigvalsh(a))[-q:]).sum() for a, q in zip(m.S, rk)]
    def own(z): x = B(z); S = m.get_penalty_mat(np.exp(z)); return f(x) + .5 * x @ S @ x + .5 * np.linalg.slogdet(m.hess_ll_beta(x) + S)[1] - .5 * (np.dot(rk, z) + sum(ps)) - .5 * (m.nx - sum(rk)) * np.log(2 * np.pi)
    cx.close("restricted likelihood", m.reml(rho), own(rho), rtol=1e-6, atol=1e-5); cx.deriv("criterion gradient", m.gradient(rho), own, rho, rtol=1e-5, atol=1e-4, scale=one)
    G = lambda z: nderiv(lambda q: np.array(own(q)), z, scale=one, h=3e-2)[0]; cx.deriv("criterion Hessian", m.hessian(rho), G, rho, rtol=1e-4, atol=5e-3, scale=one, h=3e-2); L, g1, H1 = m._f_grad_hess(rho); cx.close("joint evaluation", L, m.reml(rho), rtol=1e-9); cx.close("joint gradient", g1, m.gradient(rho), rtol=1e-8, atol=1e-8); cx.close("joint Hessian", H1, m.hessian(rho), rtol=1e-8, atol=1e-8)


@workload("location-scale fits", quick=24, thorough=500, timeout=300)
def lsf(cx):
    r, D, Fm, Fs, ml, sl_, b, w, kw, m, sig = ls_model(cx, fit=True); cx.case((ml, sl_, b, w is not None) + sig, m=Fm, s=Fs); m.fit(); f = nll_ls(m, ml, sl_, b, w, kw["weights_normalize"]); th = m.theta; lam = np.exp(th); S = m.get_penalty_mat(lam); H = m.hess_pll_beta(m.beta, S); g = m.grad_pll_beta(m.beta, S)
    if np.linalg.eigvalsh(H)[0] <= 1e-4: cx.skip("not locally concave")
    A = np.linalg.inv(H); cx.close("coefficients are stationary", np.abs(A @ g / np.sqrt(np.diag(A))).max(), 0., atol=2e-2); gr, err = nderiv(lambda z: np.array(m.reml(z)), th, scale=np.ones(m.ns))
    if np.max(err) < 1e-3: optimum(cx, gr, None, th, np.full(m.ns, -30.), np.full(m.ns, 22.))
    F_ = A @ (H - S); cx.close("effective degrees of freedom", m.edf, np.trace(F_), rtol=1e-5); cx.closen("Bayesian covariance", m.Vb, A, rtol=1e-6); mu = m.m.X @ m.beta[m.ixm]; mu = mu if ml == "identity" else np.exp(mu); s = m.s.X @ m.beta[m.ixs]; tau = 1 / (np.exp(s) + b) if sl_ == "logb" else np.exp(s); cx.close("fitted mean", m.mu, mu, rtol=1e-7); cx.close("fitted precision scale", m.tau, tau, rtol=1e-7); cx.close("residuals", m.resids, m.y - mu, rtol=1e-7, atol=1e-8); cx.close("r squared", m.rsquared, 1 - ((m.y - mu) ** 2).sum() / ((m.y - m.y.mean()) ** 2).sum(), rtol=1e-6, atol=1e-9); cx.close("log-likelihood", m.ll_model, f(m.beta), rtol=1e-8)
    for part, pre in ((m.m, "m"), (m.s, "s")):
        off = 0 if pre == "m" else m.ixs[0]
        for k, q in part.smooths.items():
            cx.close("effective degrees of freedom of a smooth", m.res_smooths.loc[f"{pre}({k})", "edf"], np.diag(F_)[q["ix"] + off].sum(), rtol=1e-4, atol=1e-5)
            if q["by_cat"] is None: cx.close("component basis", part.evaluate_component_basis(k, D[k].values), part.X[:, q["ix"]], rtol=1e-9, atol=1e-10)
    q = sorted(set(m.m.smooths) | set(m.s.smooths))[0]
    if q in D:
        pts = np.sort(r.choice(D[q].values, 5, replace=False)); P = m.predict_component(q, pts); e = m.beta[m.ixm[m.m.x_varnames.index("Intercept")]] + (m.m.evaluate_component_basis(q, pts) @ m.beta[m.m.smooths[q]["ix"]] if q in m.m.smooths else 0 * pts); h = m.beta[m.ixs[m.s.x_varnames.index("Intercept")]] + (m.s.evaluate_component_basis(q, pts) @ m.beta[m.ixs[m.s.smooths[q]["ix"]]] if q in m.s.smooths else 0 * pts); cx.close("component prediction: mean", P["mu"].values, e if ml == "identity" else np.exp(e), rtol=1e-7, atol=1e-9); cx.close("component prediction: standard deviation", P["sd"].values, np.exp(h) + b if sl_ == "logb" else np.exp(-h), rtol=1e-7)
