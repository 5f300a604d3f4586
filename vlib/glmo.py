"""Independent GLM oracle: families as scipy distributions, own links, Newton diagnostics."""
import numpy as np, scipy as sp, scipy.stats as st
from vlib.mon import nderiv

INV = dict(identity=lambda e: e, logit=sp.special.expit, probit=sp.special.ndtr, log=np.exp, reciprocal=lambda e: 1 / e, cloglog=lambda e: -np.expm1(-np.exp(e)), invsq=lambda e: e ** -.5, sqrt=lambda e: e ** 2)
DINV = dict(identity=lambda e: np.ones_like(e), logit=lambda e: sp.special.expit(e) * sp.special.expit(-e), probit=st.norm.pdf, log=np.exp, reciprocal=lambda e: -1 / e ** 2, cloglog=lambda e: np.exp(e - np.exp(e)), invsq=lambda e: -.5 * e ** -1.5, sqrt=lambda e: 2 * e)


def V(fam, mu, disp): return dict(Gaussian=np.ones_like(mu), InverseGaussian=mu ** 3, Gamma=mu ** 2, Poisson=mu, Binomial=mu * (1 - mu), NegativeBinomial=mu + disp * mu ** 2)[fam]


def nll_i(fam, y, mu, w, phi=1.0, disp=1.0):
    if fam == "Gaussian": return -st.norm.logpdf(y, mu, np.sqrt(phi / w))
    if fam == "InverseGaussian": return .5 * (w * (y - mu) ** 2 / (y * mu ** 2 * phi) + np.log(2 * np.pi * phi * y ** 3 / w))
    if fam == "Gamma": k = w / phi; return -(k * np.log(k * y / mu) - k * y / mu - np.log(y) - sp.special.gammaln(k))
    if fam == "Poisson": return -w * (y * np.log(mu) - mu - sp.special.gammaln(y + 1))
    if fam == "NegativeBinomial": a = 1 / disp; return -w * (sp.special.gammaln(y + a) - sp.special.gammaln(a) - sp.special.gammaln(y + 1) + y * np.log(disp * mu / (1 + disp * mu)) - a * np.log1p(disp * mu))
    r = w * y; return -(sp.special.gammaln(w + 1) - sp.special.gammaln(r + 1) - sp.special.gammaln(w - r + 1) + sp.special.xlogy(r, mu) + sp.special.xlog1py(w - r, -mu))


CONF = [("Gaussian", "identity"), ("Gaussian", "log"), ("InverseGaussian", "log"), ("InverseGaussian", "invsq"), ("Gamma", "log"), ("Gamma", "reciprocal"), ("Poisson", "log"), ("Poisson", "sqrt"), ("Binomial", "logit"), ("Binomial", "probit"), ("Binomial", "cloglog"), ("NegativeBinomial", "log")]


def data(r, fam, link, n, p, weighted, fac=True):
    """Design with an intercept, p-1 covariates; response from the model.  Returns a frame-ready dict."""
    X = np.c_[np.ones(n), r.uniform(-1, 1, (n, p - 1))]
    if fac and p > 2: X[:, -1] = r.integers(0, 2, n)
    b = r.normal(size=p) * .5; b[0] = r.normal() * .5
    if link in ("reciprocal", "invsq"): b = r.uniform(-.25, .25, p); b[0] = 1.2
    if link == "sqrt": b = r.uniform(-.3, .3, p); b[0] = 2.0
    if fam == "Gaussian" and link == "log": b[0] = 1.5
    mu = INV[link](X @ b); phi, disp = 1.0, 1.0
    w = r.integers(1, 5, n).astype(float) if weighted else np.ones(n)
    if fam == "Gaussian": phi = float(np.exp(r.normal() * .5)) * (.05 if link == "log" else 1); y = mu + r.normal(size=n) * np.sqrt(phi)
    elif fam == "InverseGaussian": phi = float(r.uniform(.03, .25)); y = r.wald(mu, 1 / phi)
    elif fam == "Gamma": phi = float(r.uniform(.05, .4)); y = r.gamma(1 / phi, mu * phi)
    elif fam == "Poisson": mu = mu * 1.0; y = r.poisson(mu).astype(float)
    elif fam == "NegativeBinomial": disp = float(r.uniform(.4, 1.5)); mu = mu * 3; b = b.copy(); b[0] += np.log(3); y = r.negative_binomial(1 / disp, 1 / (1 + disp * mu)).astype(float)
    else: y = r.binomial(w.astype(int), mu) / w
    return X, y, w, b, phi, disp


def newton(fun, x, scale=None):
    """Diagnostics at x: gradient, Hessian (numerical), Newton step in standard-error units."""
    g, _ = nderiv(lambda z: np.array(fun(z)), x, scale=scale); H = np.zeros((len(x), len(x)))
    H, _ = nderiv(lambda z: nderiv(lambda v: np.array(fun(v)), z, scale=scale, h=1e-2)[0], x, scale=scale, h=2e-2); H = (H + H.T) / 2
    return g, H
