"""C31: calls leave the caller's data alone, and evaluating or fitting again repeats the answer.

A *recipe* names the objects the caller owns (arrays, frames, option dictionaries, parameter
vectors), how to build a model from them, which evaluations need no fit, how to fit, and which
queries follow a fit.  The monitor plays one random history over a recipe -- evaluations in a random
order with repeats, another model of the same class built and fitted on other data in between,
a fit, queries, a second fit, queries again -- and after every single call compares a deep snapshot
of everything the caller owns; all numbers are compared with those a fresh object built from
untouched copies gave to the same question asked once.
"""
import contextlib
import copy
import io
import warnings

import numpy as np
import pandas as pd
import scipy.sparse as sps
from vlib.mon import workload
from vlib import lmmo, semo
from checks import c10, c11, c12, c14, c16, c17, c20


# ------------------------------------------------------------------ snapshots and numbers
def snap(x):
    """Hashable deep description of a caller-owned object."""
    if isinstance(x, pd.DataFrame):
        return ("df", x.shape, tuple(map(str, x.columns)), snap(x.index), tuple(map(str, x.dtypes)),
                tuple(snap(x.iloc[:, j].to_numpy()) for j in range(x.shape[1])))
    if isinstance(x, pd.Series):
        return ("series", snap(x.index), str(x.dtype), snap(x.to_numpy()))
    if isinstance(x, pd.Index):
        return ("index", str(x.dtype), tuple(map(str, x)), tuple(map(str, x.names)))
    if sps.issparse(x):
        y = x.tocsc() if x.format != "csc" else x
        return ("sparse", x.format, x.shape, snap(y.indptr), snap(y.indices), snap(y.data))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", x.shape, tuple(map(str, x.ravel())))
        return ("arr", x.shape, str(x.dtype), bool(x.flags.writeable), np.ascontiguousarray(x).tobytes())
    if isinstance(x, dict):
        return ("dict", tuple((str(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if isinstance(x, np.random.Generator):
        return "rng"
    if callable(x):
        return ("callable", id(x))
    return (type(x).__name__, repr(x))


def num(x):
    """All numbers in a result, in a fixed order."""
    if x is None or isinstance(x, (str, bytes)):
        return np.zeros(0)
    if isinstance(x, (pd.DataFrame, pd.Series)):
        v = x.to_numpy()
        if v.dtype == object:
            return np.concatenate([num(u) for u in v.ravel()] or [np.zeros(0)])
        return num(v)
    if sps.issparse(x):
        return num(x.toarray())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.concatenate([num(u) for u in x.ravel()] or [np.zeros(0)])
        if x.dtype.kind in "fiub":
            return x.astype(float).ravel()
        if x.dtype.kind == "c":
            return np.r_[x.real.ravel(), x.imag.ravel()]
        return np.zeros(0)
    if isinstance(x, dict):
        return np.concatenate([num(v) for v in x.values()] or [np.zeros(0)])
    if isinstance(x, (list, tuple)):
        return np.concatenate([num(v) for v in x] or [np.zeros(0)])
    if isinstance(x, (bool, int, float, np.number, np.bool_)):
        return np.array([float(x)])
    return np.zeros(0)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


class Recipe:
    def __init__(self, data, build, evals=None, fit=None, post=None, tol=1e-9, refit=1e-3, sig=()):
        self.data, self.build, self.evals, self.fit, self.post = data, build, evals or {}, fit, post or {}
        self.tol, self.refit, self.sig = tol, refit, sig


def same(cx, name, a, b, tol):
    if a.shape != b.shape:
        return cx.ok(name, False, dict(shapes=(a.shape, b.shape)))
    f = np.isfinite(b)
    ok = np.array_equal(f, np.isfinite(a))
    if f.any() and ok:
        s = 1e-300 + np.abs(b[f]).max()
        e = np.abs(a[f] - b[f])
        ok = bool(np.all(e <= tol * (np.abs(b[f]) + .1 * s)))
    return cx.ok(name, ok, lambda: dict(got=a[:8], want=b[:8], gap=float(np.nanmax(np.abs(a - b))) if a.size else 0))


def play(cx, make, cls, max_evals=10):
    """One random history over a recipe; make(rng) returns a recipe."""
    r = cx.rng
    R = make(r)
    other = make(r) if r.random() < .6 else None
    cx.case((cls,) + tuple(R.sig) + (other is not None,))
    ref = {}
    # a fresh object on private copies answers every question once
    with quiet():
        D0 = copy.deepcopy(R.data)
        m0 = R.build(D0)
        try:
            for k, f in R.evals.items():
                ref[k] = num(f(m0, D0)).copy()
        except np.linalg.LinAlgError:
            cx.skip("evaluation point outside the domain")
        if R.fit:
            D0 = copy.deepcopy(R.data)
            m0 = R.build(D0)
            try:
                R.fit(m0, D0)
            except Exception as e:
                if "definite" in str(e) or isinstance(e, np.linalg.LinAlgError): cx.skip("fit left the admissible region")
                raise
            for k, f in R.post.items():
                ref["post " + k] = num(f(m0, D0)).copy()
    D = R.data
    s0 = {k: snap(v) for k, v in D.items()}

    def check(after):
        for k, v in D.items():
            if snap(v) != s0[k]:
                cx.ok(f"{cls}: caller's data unchanged", False, f"'{k}' changed by {after}")
                D[k] = copy.deepcopy(R.data0[k])
                s0[k] = snap(D[k])
            else:
                cx.ok(f"{cls}: caller's data unchanged", True)

    R.data0 = copy.deepcopy(D)
    with quiet():
        m = R.build(D)
    check("construction")

    def ask(k, f, key, tol, what):
        with quiet():
            v = num(f(m, D))
        check(k)
        same(cx, f"{cls}: {what}", v, ref[key], tol)
        cx.note("calls")

    names = list(R.evals)
    if names:
        for k in r.choice(names, size=min(max_evals, 3 * len(names))):
            k = str(k)
            if other is not None and r.random() < .15:
                with quiet():
                    mo = other.build(copy.deepcopy(other.data))
                    for f in list(other.evals.values())[:3]:
                        f(mo, copy.deepcopy(other.data))
            ask(k, R.evals[k], k, R.tol, "evaluation repeats whatever was called before")
    if R.fit:
        if other is not None and other.fit and r.random() < .5:
            with quiet():
                mo = other.build(copy.deepcopy(other.data)); other.fit(mo, copy.deepcopy(other.data))
        with quiet():
            R.fit(m, D)
        check("fit")
        cx.note("calls")
        post = [str(k) for k in r.permutation(list(R.post))]
        for k in post + [str(k) for k in r.choice(post, size=min(3, len(post)))]:
            ask(k, R.post[k], "post " + k, max(R.tol, 1e-5), "fit repeats after other calls")
        for k in [str(k) for k in r.permutation(names)][:4]:
            ask(k, R.evals[k], k, R.tol, "evaluation repeats after fitting")
        if R.refit:
            try:
                with quiet():
                    R.fit(m, D)
            except np.linalg.LinAlgError:
                return cx.note("second fit left the admissible region")
            check("second fit")
            for k in post:
                ask(k, R.post[k], "post " + k, R.refit, "second fit gives the same answer")
    return m


attr = lambda *names: {n: (lambda m, D, n=n: getattr(m, n)) for n in names}   # noqa: E731
meth = lambda **kw: {n: (lambda m, D, n=n, a=a: getattr(m, n)(*[D[x] for x in a])) for n, a in kw.items()}  # noqa: E731


# ------------------------------------------------------------------ generalized linear models
def r_glm2(cx):
    from pystatsm.pyglm2 import glm as g2, families as f2, links as l2

    def make(r):
        _, fam, link, X, y, w, b, phi, disp, sc = c10.gen(cx, n=int(r.integers(40, 90)))
        p = X.shape[1]
        th = np.r_[b, np.log(phi)] if sc == "NR" else b.copy()
        frm = p > 1 and r.random() < .4
        F = lambda: getattr(f2, fam)(link=c10.flink(l2, link))
        D = dict(X=X.copy(), y=y.copy(), w=w.copy(), theta=th + .01 * r.normal(size=len(th)), opt=dict(options=dict(verbose=0)), start=th.copy())
        if frm:
            df = pd.DataFrame(X[:, 1:], columns=[f"z{j}" for j in range(1, p)]); df["y"] = y; D["df"] = df
            build = lambda D: g2.GLM("y~" + "+".join(D["df"].columns[:-1]), data=D["df"], family=F(), scale_estimator=sc, weights=D["w"])
        else:
            build = lambda D: g2.GLM(X=D["X"], y=D["y"], family=F(), scale_estimator=sc, weights=D["w"])
        ev = dict(objective=lambda m, D: m.loglike(D["theta"]),
                  gradient=lambda m, D: m.gradient(D["theta"]), hessian=lambda m, D: m.hessian(D["theta"]))
        if sc == "M":
            ev = {}
        fit = (lambda m, D: m.fit(opt_kws=D["opt"])) if r.random() < .4 else (lambda m, D: m.fit())
        post = attr("beta", "params", "params_cov", "mu", "res", "sumstats")
        return Recipe(D, build, ev, fit, post, refit=2e-2, sig=(fam, link, sc, frm))
    return make


def r_glm1(cx):
    from pystatsm.pyglm import glm as g1, families as f1, links as l1

    def make(r):
        _, fam, link, X, y, w, b, phi, disp, sc = c10.gen(cx, n=int(r.integers(40, 80)), confs=[("Gaussian", "identity"), ("Poisson", "log"), ("Gamma", "log"), ("Binomial", "logit")])
        sc = str(r.choice(["M", "NR"])) if fam in ("Gaussian", "Gamma") else "fixed"
        th = np.r_[b, np.log(phi)] if sc == "NR" else b.copy()
        D = dict(X=X.copy(), y=y.copy(), theta=th + .01 * r.normal(size=len(th)), opt=dict(options=dict(verbose=0)), init=th.copy())
        k = X.shape[1]
        if r.random() < .4 and k > 1:
            df = pd.DataFrame(X[:, 1:], columns=[f"z{j}" for j in range(1, k)]); df["y"] = y; D["df"] = df
            build = lambda D: g1.GLM(formula="y~" + "+".join(D["df"].columns[:-1]), data=D["df"], fam=getattr(f1, fam)(link=c10.flink(l1, link)), scale_estimator=sc)
        else:
            build = lambda D: g1.GLM(X=D["X"], Y=D["y"], fam=getattr(f1, fam)(link=c10.flink(l1, link)), scale_estimator=sc)
        meths = ["sp"] + (["ee"] if (fam, link) in c10.CANON and sc != "NR" else []) + (["mn"] if sc != "M" else [])
        mt = str(r.choice(meths))
        ev = dict(objective=lambda m, D: m.full_loglike(D["theta"]), gradient=lambda m, D: m.gradient(D["theta"]), hessian=lambda m, D: m.hessian(D["theta"])) if sc != "M" else {}

        def fit(m, D):
            if mt == "mn": m.theta_init = D["init"]
            m.fit(method=mt)
        post = attr("beta", "params", "phi", "mu", "res")
        return Recipe(D, build, ev, fit, post, refit=2e-2, sig=(fam, link, sc, mt))
    return make


@workload("generalized linear models", quick=48, thorough=600, timeout=400)
def glm2(cx):
    first = cx.rng.random() < .35
    play(cx, (r_glm1 if first else r_glm2)(cx), "glm, first generation" if first else "glm")


# ------------------------------------------------------------------ ordinal, counts, proportions
def r_counts(cx):
    from pystatsm.pyglm.betareg import BetaReg
    from pystatsm.pyglm.clm import CLM as CLM1
    from pystatsm.pyglm.nb2 import NegativeBinomial
    from pystatsm.pyglm.zimodels import ZIP
    from pystatsm.pyglm2.clm import CLM
    from pystatsm.pyglm2.zinf import ZeroInflatedPoisson, ZeroInflatedNBinom
    kind = str(cx.rng.choice(["clm", "clm1", "nb", "zip1", "zip", "zinb", "beta"]))

    def make(r):
        n = int(r.integers(90, 160))
        if kind in ("clm", "clm1"):
            df = pd.DataFrame({f"x{j}": r.normal(size=n) for j in range(2)})
            q = int(r.integers(2, 4))
            df["y"] = np.digitize(df["x0"] * .6 + r.logistic(size=n), np.linspace(-1, 1, q)) + 1
            w = r.integers(1, 4, n) * 1.
            D = dict(df=df, w=w, theta=np.r_[np.linspace(-.8, 1., q), .3, -.2], opt=dict(options=dict(gtol=1e-8, xtol=1e-9)), X=df[["x0", "x1"]].values[:6].copy())
            if kind == "clm":
                link = c11.L2[str(r.choice(["logit", "probit"]))]
                build = lambda D: CLM("y~x0+x1", D["df"], weights=D["w"], link=link)
                ev = meth(loglike=["theta"], gradient=["theta"], hessian=["theta"], gradient_i=["theta"], loglike_unconstrained=["theta"], hessian_unconstrained=["theta"])
                return Recipe(D, build, ev, lambda m, D: m.fit(opt_kws=D["opt"]), dict(attr("params", "params_cov", "beta", "res", "sumstats"), predict=lambda m, D: m.predict(X=D["X"])), sig=(kind, q))
            build = lambda D: CLM1("y~x0+x1-1", D["df"])
            ev = meth(loglike=["theta"], gradient=["theta"], hessian=["theta"])
            def boot(m, D):
                np.random.seed(5); m.bootstrap(2)
                return 0.
            return Recipe(D, build, ev, lambda m, D: m.fit(optimizer_kwargs=D["opt"]), dict(boot=boot, **{f"at theta {k}": v for k, v in ev.items()}) if r.random() < .3 else attr("params", "res"), sig=(kind, q))
        if kind == "beta":
            df = pd.DataFrame({f"x{j}": r.normal(size=n) for j in range(2)})
            mu = 1 / (1 + np.exp(-.4 * df["x0"].values - .2)); df["y"] = np.clip(r.beta(mu * 8, (1 - mu) * 8), 1e-4, 1 - 1e-4)
            D = dict(df=df, theta=np.array([.1, .3, -.1, 1.5, .1]), X=pd.DataFrame(np.c_[np.ones(n), df[["x0", "x1"]].values]), Z=pd.DataFrame(np.c_[np.ones(n), df[["x1"]].values]), y=df["y"].values.copy())
            build = (lambda D: BetaReg(m_formula="y~x0+x1", s_formula="y~x1", data=D["df"])) if r.random() < .5 else (lambda D: BetaReg(X=D["X"], Z=D["Z"], y=D["y"]))
            ev = meth(loglike=["theta"], gradient=["theta"], hessian=["theta"], loglike_elementwise=["theta"])
            return Recipe(D, build, ev, lambda m, D: m.fit(), dict(attr("theta", "res", "sumstats"), predict=lambda m, D: m.predict()), sig=(kind,))
        zi = kind != "nb"; nb = kind in ("nb", "zinb")
        df, X, Z, y, xc, zc, t0 = c11.count_data(r, zi, nb, n); p = X.shape[1]
        D = dict(df=df, X=X.copy(), Z=Z.copy(), y=np.asarray(y).copy(), opt=dict(options=dict(verbose=0)), opt2=dict())
        if kind == "nb":
            D["theta"] = np.r_[t0[:p], t0[-1]]
            build = lambda D: NegativeBinomial("y~" + c11.fm(xc), D["df"])
            ev = meth(loglike=["theta"], gradient=["theta"], hessian=["theta"], deviance=["theta"])
            def boot(m, D):
                np.random.seed(5); m.bootstrap(2)
                return 0.
            return Recipe(D, build, ev, (lambda m, D: m.fit(opt_kws=D["opt2"])) if r.random() < .5 else (lambda m, D: m.fit()), dict(boot=boot, **{f"at theta {k}": v for k, v in ev.items()}) if r.random() < .3 else attr("params", "se_params", "res", "sumstats", "yhat"), sig=(kind, p))
        D["theta"] = t0[:-1].copy() if kind != "zinb" else t0.copy()
        if kind == "zip1":
            build = lambda D: ZIP(D["X"], D["y"], D["Z"])
            post = dict(attr("params", "se_params", "res"), predict=lambda m, D: m.predict(D["theta"]))
            return Recipe(D, build, meth(loglike=["theta"], gradient=["theta"], hessian=["theta"]), lambda m, D: m.fit(), post, sig=(kind, p))
        C = ZeroInflatedPoisson if kind == "zip" else ZeroInflatedNBinom
        build = lambda D: C(D["X"], D["Z"], D["y"]) if False else C("y~" + c11.fm(xc), "y~" + c11.fm(zc), D["df"])
        ev = meth(loglike=["theta"], gradient=["theta"], hessian=["theta"], gradient_i=["theta"])
        return Recipe(D, build, ev, lambda m, D: m.fit(), attr("params", "params_cov", "res"), sig=(kind, p))
    return kind, make


@workload("ordinal, counts and proportions", quick=48, thorough=600, timeout=600)
def counts(cx):
    kind, make = r_counts(cx)
    play(cx, make, kind)


# ------------------------------------------------------------------ least squares
def r_ols(cx):
    from pystatsm.pyglm import ols as o1
    from pystatsm.pyglm2 import ols as o2, mvols as mv
    kind = str(cx.rng.choice(["ols1", "ols2", "mvols"]))

    def make(r):
        kd, X, y, df = c12.design(r, n=int(r.integers(30, 70)), kind=str(r.choice(["normal", "factor"])))
        p = X.shape[1]; f = "y~" + "+".join(df.columns[:-1]); how = bool(r.integers(2))
        D = dict(X=X.copy(), y=y.copy(), df=df, theta=np.r_[np.zeros(p), .3], A=np.eye(p)[1:].copy(), names=[f"v{i}" for i in range(p)])
        if kind == "ols1":
            build = (lambda D: o1.OLS(f, data=D["df"])) if how else (lambda D: o1.OLS(X=D["X"], y=D["y"]))
            post = dict(attr("beta", "beta_se", "res"), robust=lambda m, D: m.robust_rcov(kind="HC3"), influence=lambda m, D: m.get_influence(), predict=lambda m, D: m.predict(X=D["X"][:4]))
            return Recipe(D, build, {}, lambda m, D: m.fit(), post, refit=1e-9, sig=(kind, how, p))
        if kind == "ols2":
            build = (lambda D: o2.OLS(f, data=D["df"])) if how else (lambda D: o2.OLS(X=D["X"], y=D["y"]))
            post = dict(attr("beta", "params", "params_cov", "res", "scale"), gradient=lambda m, D: m.gradient(D["theta"]), hessian=lambda m, D: m.hessian(D["theta"]), loglike=lambda m, D: m.loglike(D["theta"]), predict=lambda m, D: m.predict(X=D["X"][:4]),
                        perm=lambda m, D: m._permutation_test([1], 5, verbose=False, rng=np.random.default_rng(3)))
            return Recipe(D, build, {}, lambda m, D: m.fit(), post, refit=1e-9, sig=(kind, how, p))
        q = int(r.integers(1, 4)); D["Y"] = X[:, :1] + r.normal(size=(len(y), q)); D["w"] = r.uniform(.3, 2, len(y)); D["M"] = np.eye(q)[:1].copy()
        D["theta"] = r.normal(size=p * q) * .1; lt = np.eye(q)[np.tril_indices(q)]; D["theta"] = np.r_[D["theta"], lt * .5 if False else np.zeros(q * (q + 1) // 2)]
        build = lambda D: mv.MVOLS(X=D["X"], y=D["Y"], weights=D["w"])
        ev = meth(loglike=["theta"], gradient=["theta"], hessian=["theta"], gradient_i=["theta"])
        mle = r.random() < .2
        post = dict(attr("beta", "sigma_mle", "resid_sscp", "rsquared"), hyp=lambda m, D: m.test_hypothesis(D["A"], M=D["M"].T), tests=lambda m, D: m.multivariate_tests(), predict=lambda m, D: m.predict(X=D["X"][:4]))
        return Recipe(D, build, ev, (lambda m, D: m.fit(method="mle")) if mle else (lambda m, D: m.fit()), post, refit=1e-3 if mle else 1e-9, sig=(kind, q, mle))
    return kind, make


@workload("least squares", quick=64, thorough=800, timeout=400)
def least(cx):
    kind, make = r_ols(cx)
    play(cx, make, kind)


# ------------------------------------------------------------------ mixed models
def r_mixed(cx):
    from pystatsm.pylmm.lmm import LMM
    from pystatsm.pylmm.re_mod import LMM2
    gen = int(cx.rng.integers(1, 3))

    def make(r):
        d = lmmo.make(r, n_terms=int(r.integers(1, 3)), well=True); D0 = lmmo.Dense(d)
        C = LMM if gen == 1 else LMM2
        with quiet():
            t = C(d["formula"], d["df"].copy()); th = np.asarray(t.theta if gen == 1 else t.mme.re_mod.theta, float).copy()
        th = th * r.uniform(.9, 1.3); th2 = th * 1.7
        D = dict(df=d["df"].copy(), theta=th, theta2=th2, opt=dict(verbose=0), X=np.asarray(D0.X)[:4].copy())
        reml = bool(r.integers(2))
        build = lambda D: C(d["formula"], D["df"])
        ev = {}
        for tn in ("theta", "theta2"):
            for a in ("loglike", "gradient", "hessian")[:3 if gen == 1 else 2]:
                ev[f"{a} {tn}"] = lambda m, D, a=a, tn=tn: getattr(m, a)(D[tn], reml)
        if gen == 1:
            ev["loglike chol"] = lambda m, D: m.loglike_c(D["theta"], reml)
            ev["gradient chol"] = lambda m, D: m.gradient_c(D["theta"], reml)
            ev["hessian chol"] = lambda m, D: m.hessian_c(D["theta"], reml)
            fit = lambda m, D: m.fit(reml=reml)
            post = attr("theta", "beta", "se_beta", "u", "res")
        else:
            ev["gradient v2"] = lambda m, D: m.gradient_v2(D["theta"], reml)
            ev["effects"] = lambda m, D: m.compute_effects(D["theta"])
            ev["chol"] = lambda m, D: m.mme.update_chol_diag(D["theta"])
            fit = (lambda m, D: m.fit(reml=reml, opt_kws=D["opt"])) if r.random() < .4 else (lambda m, D: m.fit(reml=reml))
            post = dict(attr("theta", "beta", "u", "res"), ranef=lambda m, D: m.random_effects_array(), r2=lambda m, D: m.r_squared(), vd=lambda m, D: m.variance_decomposition(), confint=lambda m, D: m.confint(), df=lambda m, D: m.approx_degfree())
        return Recipe(D, build, ev, fit if r.random() < .6 else None, post, tol=1e-8, refit=.1, sig=(gen, reml, len(d["re"])))
    return gen, make


@workload("mixed models", quick=32, thorough=400, timeout=900)
def mixed(cx):
    gen, make = r_mixed(cx)
    play(cx, make, f"mixed model, generation {gen}")


# ------------------------------------------------------------------ additive models
def r_gam(cx):
    from pystatsm.pygam import gauls as gl
    from pystatsm.pygam.gam import GAM
    from pystatsm.pygam.gaussian_additive_model import GaussianAdditiveModel as GA
    from pystatsm.pyglm import families as fam1
    kind = str(cx.rng.choice(["gam", "gaussian additive", "location scale"]))

    def make(r):
        if kind == "location scale":
            _, Df, Fm, Fs, ml, sl_, b, w, kw, m0, sg = c16.ls_model(cx)
            D = dict(df=Df.copy(), beta=r.normal(size=len(m0.beta_init) if hasattr(m0, "beta_init") else m0.m.X.shape[1] + m0.s.X.shape[1]) * .05, rho=r.uniform(0, 4, len(m0.m.S) + len(m0.s.S) if hasattr(m0.m, "S") else 2), w=None if w is None else w.copy())
            kw2 = {k: v for k, v in kw.items() if k != "weights"}
            build = lambda D: gl.GauLS("y~" + Fm, "y~" + Fs, D["df"], weights=D["w"], **copy.deepcopy(kw2))
            ev = meth(loglike=["beta"], grad_ll_beta=["beta"], hess_ll_beta=["beta"], reml=["rho"], gradient=["rho"], hessian=["rho"], beta_rho=["rho"], logdetS=["rho"])
            return Recipe(D, build, ev, None, sig=(kind, ml, sl_), tol=1e-5)
        if kind == "gam":
            _, fam, link, Df, F, sg, m0 = c16.setup(cx, small=True)
            build = lambda D: GAM("y~" + F, D["df"], family=getattr(fam1, fam)(link=c16.flink(link)))
            re = fam in ("Gaussian", "Gamma", "InverseGaussian")
        else:
            Df = c16.frame(r, int(r.integers(80, 150))); F, f, sg = c16.formula(r, Df, small=True); Df["y"] = f * 2 + r.normal(size=len(Df))
            m0 = GA("y~" + F, Df.copy()); fam = "Gaussian"; re = True
            build = lambda D: GA("y~" + F, D["df"])
        D = dict(df=Df.copy(), theta=np.r_[r.uniform(0, 4, m0.ns), .2], lam=np.exp(r.uniform(0, 4, m0.ns)), opt=dict(options=dict(verbose=0)))
        ev = dict(pirls=lambda m, D: m.pirls(D["lam"])[0] if kind == "gam" else m.pirls(D["lam"])[0], pen=lambda m, D: m.get_penalty_mat(D["lam"]))
        if re:
            ev.update(meth(reml=["theta"], gradient=["theta"], hessian=["theta"]))
        fit = (lambda m, D: m.fit(opt_kws=D["opt"])) if re and r.random() < .5 else None
        post = dict(attr("beta", "edf"), comps=lambda m, D: m.get_smooth_comps(**({} if kind == "gam" else dict(beta=m.beta))))
        return Recipe(D, build, ev, fit, post, tol=1e-5, refit=5e-2, sig=(kind, fam) + tuple(map(str, sg)))
    return kind, make


@workload("additive models", quick=32, thorough=400, timeout=900)
def additive(cx):
    kind, make = r_gam(cx)
    play(cx, make, kind)


# ------------------------------------------------------------------ factor analysis and structural models
def r_factor(cx):
    from pystatsm.pyfa import efa, factor_analysis as fa1
    from pystatsm.pyfa2.likelihood import MLEstimator
    from pystatsm.pyfa2 import rotation as r2
    kind = str(cx.rng.choice(["efa", "fa1", "fa2"]))

    def make(r):
        p, m = c17.dims(r, 7); X, S, n = c17.cov_(r, p, m, lo=300)
        df = pd.DataFrame(X, columns=[f"v{i}" for i in range(p)])
        rot = [{}, dict(rotation_method="varimax", rotation_type="ortho"), dict(rotation_method="quartimax", rotation_type="oblique")][int(r.integers(3))] if m > 1 else {}
        D = dict(df=df, S=S.copy(), psi=np.diag(S) * r.uniform(.3, .6, p), rho=np.log(np.diag(S) * .4), X=X.copy())
        if kind == "fa2":
            build = lambda D: MLEstimator(D["S"], m)
            ev = meth(loglike_psi=["psi"], grad_psi=["psi"], hess_psi=["psi"], loadings_from_psi=["psi"], loglike_exp=["rho"], grad_exp=["rho"], hess_exp=["rho"])
            return Recipe(D, build, ev, lambda m, D: setattr(m, "_o", m.fit_psi()), dict(psi=lambda m, D: m._o["psi"]), refit=1e-6, sig=(kind, p, m))
        C = efa.FactorAnalysis if kind == "efa" else fa1.FactorAnalysis
        byx = bool(r.integers(2))
        build = (lambda D: C(X=D["df"], n_factors=m, **rot)) if byx else (lambda D: C(S=D["S"], n_obs=n, n_factors=m, **rot))
        if kind == "efa":
            ev = meth(loglike=["psi"], gradient=["psi"], hessian=["psi"], loglike_exp=["rho"], gradient_exp=["rho"], loadings_from_psi=["psi"])
            post = dict(attr("Psi", "Sigma"), common=lambda m, D: np.asarray(m.L) @ np.asarray(m.Phi) @ np.asarray(m.L).T, fac=lambda m, D: [v.shape for v in m.estimate_factors(D["X"])] if byx else 0.)
        else:
            D["theta"] = np.r_[r.normal(size=p * m) * .3 * np.sqrt(np.diag(S)).repeat(m), D["rho"]]
            ev = meth(loglike=["theta"], gradient=["theta"], hessian=["theta"], implied_cov=["theta"], loadings_from_psi=["psi"])
            post = dict(attr("Psi"), common=lambda m, D: np.asarray(m.L) @ np.asarray(m.Phi) @ np.asarray(m.L).T)
        return Recipe(D, build, ev, (lambda m, D: m.fit()), post, tol=1e-8, refit=6e-2, sig=(kind, p, m, byx, str(rot.get("rotation_method"))))
    return kind, make


@workload("factor analysis", quick=32, thorough=400, timeout=600)
def factor(cx):
    kind, make = r_factor(cx)
    play(cx, make, kind)


def r_sem(cx):
    gen = int(cx.rng.integers(1, 3))

    def make(r):
        if gen == 2:
            from pystatsm.pysem2.sem import SEM
        else:
            from pystatsm.pysem.sem2 import SEM
        spec, kd = semo.make(r, means=True); G = int(r.choice([1, 1, 2])); shared = [bool(r.random() < .6) if G > 1 else True for _ in range(6)]
        df = c20.data(cx, spec, G); txt = spec.text()
        gc = "grp" if G > 1 else None
        D = dict(df=df.copy(), kw=dict(shared=list(shared)))
        if gc and gen == 2:
            D["kw"]["group_col"] = gc
        build = (lambda D: SEM(txt, D["df"], model_spec_kws=D["kw"])) if gen == 2 else (lambda D: SEM(txt, D["df"], group_col=gc, group_kws=D["kw"]))
        with quiet():
            m0 = build(copy.deepcopy(D))
        D["theta"] = np.asarray(m0.theta, float).copy(); D["theta2"] = D["theta"] * r.uniform(.95, 1.05, len(D["theta"]))
        ff = "fit_func" if gen == 2 else "func"
        ev = {}
        for tn in ("theta", "theta2"):
            for a in (ff, "gradient", "hessian", "implied_cov_mean", "dsigma_mu", "gradient_obs"):
                if a != "hessian" or tn == "theta":
                    ev[f"{a} {tn}"] = lambda m, D, a=a, tn=tn: getattr(m, a)(D[tn])
        return Recipe(D, build, ev, tol=1e-8, sig=(gen, kd, G))
    return gen, make


@workload("structural equation models", quick=20, thorough=400, timeout=600)
def sem(cx):
    gen, make = r_sem(cx)
    play(cx, make, f"structural model, generation {gen}")


@workload("structural equation fits", quick=9, thorough=120, timeout=600)
def semfit(cx):
    """One-factor models with clean data, fitted by either generation."""
    gen = int(cx.rng.integers(1, 4))

    def make(r):
        p = int(r.integers(4, 6)); n = int(r.integers(200, 400)); f = r.normal(size=n)
        X = pd.DataFrame(f[:, None] * r.uniform(.7, 1.2, p) + r.normal(size=(n, p)) * .7, columns=[f"v{i}" for i in range(p)])
        txt = "F =~ " + " + ".join(X.columns)
        D = dict(df=X, opt=dict(verbose=0), kws=dict(method="trust-constr"))
        if gen == 3:
            from pystatsm.pysem.sem import SEM
            D["L"] = pd.DataFrame(np.ones((p, 1)), index=X.columns, columns=["F"]); D["B"] = pd.DataFrame(np.zeros((1, 1)), index=["F"], columns=["F"])
            D["F"] = pd.DataFrame(np.eye(1), index=["F"], columns=["F"]); D["P"] = pd.DataFrame(np.eye(p), index=X.columns, columns=X.columns)
            build = lambda D: SEM(D["L"], D["B"], D["F"], D["P"], data=D["df"])
            t = build(copy.deepcopy(D)); D["theta"] = t.theta.copy()
            ev = meth(loglike=["theta"], gradient=["theta"], hessian=["theta"], implied_cov=["theta"])
            return Recipe(D, build, ev, lambda m, D: m.fit(), attr("theta", "res"), tol=1e-8, refit=2e-2, sig=(gen, p))
        if gen == 2:
            from pystatsm.pysem2.sem import SEM
        else:
            from pystatsm.pysem.sem2 import SEM
        build = lambda D: SEM(txt, D["df"])
        t = build(copy.deepcopy(D)); D["theta"] = np.asarray(t.theta, float).copy(); D["init"] = D["theta"].copy()
        ev = {a: (lambda m, D, a=a: getattr(m, a)(D["theta"])) for a in ("gradient", "loglike", "implied_cov_mean")}
        fit = (lambda m, D: m.fit(theta_init=D["init"], minimize_kws=D["kws"], minimize_options=D["opt"])) if r.random() < .6 else (lambda m, D: m.fit(robust_se=True))
        return Recipe(D, build, ev, fit, attr("theta", "res"), tol=1e-8, refit=2e-2, sig=(gen, p))
    play(cx, make, f"structural fit {gen}")


# ------------------------------------------------------------------ multivariate, robust, latent correlations, penalised
def r_other(cx):
    kind = str(cx.rng.choice(["cca", "scca", "ica", "nmf", "huber", "polychoric", "polyserial", "polychor pairs", "polychor 2", "elastic net", "plain elastic net", "survey"]))

    def make(r):
        n = int(r.integers(50, 100))
        if kind in ("cca", "scca"):
            p, q = int(r.integers(2, 5)), int(r.integers(2, 5)); z = r.normal(size=(n, 1))
            D = dict(X=z + r.normal(size=(n, p)), Y=z + r.normal(size=(n, q)), lx=np.array([.8]), ly=np.array([.9]))
            if r.random() < .5: D["X"] = pd.DataFrame(D["X"], columns=[f"a{i}" for i in range(p)]); D["Y"] = pd.DataFrame(D["Y"], columns=[f"b{i}" for i in range(q)])
            if kind == "cca":
                from pystatsm.pyscca.base_cca import CCA
                def build(D):
                    m = CCA(D["X"], D["Y"]); m._fit(); return m
                return Recipe(D, build, dict(predict=lambda m, D: [np.abs(v[:, :1]) for v in m.predict(np.asarray(D["X"]), np.asarray(D["Y"]))], rho=lambda m, D: m.rhos, moments=lambda m, D: [m.Sxx, m.Sxy, m.Sxx_isq]), sig=(kind, p, q))
            from pystatsm.pyscca.scca import SCCA
            ev = {"fit": lambda m, D: [np.abs(np.asarray(v)) for v in m._fit(.8, .9, n_comps=1)[:3]], "state": lambda m, D: [np.asarray(m.X), np.asarray(m.Y)], "orth": lambda m, D: m.orthogonalize_components(D["Wx"], D["Wy"])}
            D["Wx"], D["Wy"] = np.ones((p, 1)), np.ones((q, 1))
            return Recipe(D, lambda D: SCCA(D["X"], D["Y"]), ev, sig=(kind, p, q))
        if kind == "ica":
            from pystatsm.pyica.ica import ICA
            D = dict(X=r.laplace(size=(n, 3)) @ r.normal(size=(3, 3)))
            def fit(m, D):
                np.random.seed(3); m.fit()
            return Recipe(D, lambda D: ICA(D["X"], n_comps=2), dict(inputs=lambda m, D: [D["X"]]), fit, dict(size=lambda m, D: [v.shape for k, v in sorted(vars(m).items()) if isinstance(v, np.ndarray)]), refit=1e-6, sig=(kind,))
        if kind == "nmf":
            from pystatsm.pynmf.hfuncs import NMFSeq
            D = dict(X=r.random((6, 30)))
            def build(D):
                np.random.seed(4); return NMFSeq(D["X"], k=2, L=3, n_starts=2, n_iters=8)
            def fit(m, D):
                np.random.seed(5); m.fit()
            return Recipe(D, build, {}, fit, dict(state=lambda m, D: [v for k, v in sorted(vars(m).items()) if isinstance(v, np.ndarray) and v.dtype.kind == "f"]), refit=None, sig=(kind,))
        if kind == "huber":
            from pystatsm.pyrobust import rls
            df = pd.DataFrame(r.normal(size=(n, 2)), columns=["x0", "x1"]); df["y"] = 1 + df.x0 + r.standard_t(3, size=n)
            D = dict(df=df, theta=np.array([.8, .9, .1, .2]), opt=dict(options=dict(gtol=1e-8)), init=np.array([1., 1., 0.]))
            ev = meth(rho=["theta"], grad=["theta"], hessian=["theta"])
            ev["irwls"] = lambda m, D: m.irwls()[0]
            return Recipe(D, lambda D: rls.RobustLM("y~x0+x1", D["df"]), ev, lambda m, D: m.fit(opt_kws=D["opt"]), attr("res"), sig=(kind,))
        if kind.startswith("poly"):
            from pystatsm.pylvcorr import lvcorr, polychoric, polychoric2
            S = np.full((3, 3), .4) + .6 * np.eye(3); Z = r.normal(size=(4 * n, 3)) @ np.linalg.cholesky(S).T
            O = np.stack([np.digitize(Z[:, j], np.sort(r.choice([-.8, -.2, .4, .9], 2, replace=False))) for j in range(3)], 1).astype(float)
            df = pd.DataFrame(O, columns=list("abc")); D = dict(df=df, x=Z[:, 0].copy(), y=O[:, 1].copy(), r=np.array([.3]), opt=dict(method="trust-constr"))
            if kind == "polyserial":
                return Recipe(D, lambda D: lvcorr.Polyserial(D["x"], D["y"]), meth(loglike=["r"], gradient=["r"], hessian=["r"]), lambda m, D: m.fit(), dict(all=lambda m, D: m.rho_hat if hasattr(m, "rho_hat") else getattr(m, "rho", 0.)), sig=(kind,))
            if kind == "polychoric":
                C = [lvcorr.Polychoric, lvcorr.PolychoricCorr][int(r.integers(2))]
                ev = {a: (lambda m, D, a=a: getattr(m, a)(.3, *m.IJ_ind[0]) if hasattr(m, "IJ_ind") else getattr(m, a)(.3, 0, 1)) for a in ("loglike", "gradient", "hessian")}
                return Recipe(D, lambda D: C(D["df"]), ev, lambda m, D: m.fit(), dict(state=lambda m, D: [v for k, v in sorted(vars(m).items()) if isinstance(v, np.ndarray) and v.dtype.kind == "f"]), refit=1e-2, tol=1e-8, sig=(kind, C.__name__))
            P = polychoric.Polychor if kind == "polychor pairs" else polychoric2.Polychor
            ev = {a: (lambda m, D, a=a: getattr(m, a)(.3, 0, 1)) for a in ("qloglike", "qgradient", "qhessian")}
            return Recipe(D, lambda D: P(D["df"]), ev, lambda m, D: m.fit(method="twostep"), dict(state=lambda m, D: [v for k, v in sorted(vars(m).items()) if isinstance(v, np.ndarray) and v.dtype.kind == "f" and not k.startswith("_")]), refit=1e-2, sig=(kind,))
        if kind == "elastic net":
            from pystatsm.pyglmnet import glmen2
            from pystatsm.pyglm import families as f1
            fam = str(r.choice(["Gaussian", "Poisson", "Binomial"])); _, X, y = c14.data(r, fam, wide=False, std=False); p = X.shape[1]
            D = dict(X=X.copy(), y=y.copy(), w=r.uniform(.3, 2, len(y)), beta=np.r_[0., r.normal(size=p) * .1], kws=dict(n_iters=200))
            ev = {a: (lambda m, D, a=a: getattr(m, a)(D["beta"], .1)) for a in ("obj_func", "pen_func", "dev_grad", "obj_grad", "dev_hess", "obj_hess")}
            ev["start"] = lambda m, D: m.get_start_param(20)
            def fit(m, D):
                np.random.seed(7); c14.quiet(m.fit, n_lambdas=8, cv=3, kws=D["kws"])
            return Recipe(D, lambda D: glmen2.ElasticNetGLM(X=D["X"], y=D["y"], family=getattr(f1, fam)(), wobs=D["w"], alpha=.9), ev, fit, attr("betas", "beta", "lambdas", "dev_vals"), refit=1e-6, sig=(kind, fam))
        if kind == "plain elastic net":
            from pystatsm.pyglmnet import gaussian_eln as ge, binomial_eln as b1, binom_eln2 as b2, lasso as la, lars as lr, eln_utils as eu
            _, X, y = c14.data(r, "Gaussian", wide=False); _, Xb, yb = c14.data(r, "Binomial", wide=False); p = X.shape[1]
            yc = y - y.mean(); lam = float(np.abs(X.T @ yc).max() / len(y) * r.uniform(.1, .8)); lb = float(np.abs(Xb.T @ (yb - yb.mean())).max() / len(yb) * .3)
            D = dict(bact=np.ones(Xb.shape[1], bool), X=X.copy(), y=yc.copy(), b=r.normal(size=p) * .1, Xb=Xb.copy(), yb=yb.copy(), kw=dict(n_iters=200), lams=lam * np.geomspace(1, .1, 5), active=np.arange(p) % 2 == 0)
            ev = dict(elnet=lambda m, D: ge.elnet(D["X"], D["y"], lam, .9, b=D["b"])[0], elnet0=lambda m, D: ge.elnet(D["X"], D["y"], lam, .9)[0],
                      grad=lambda m, D: ge.elnet_grad(D["b"], D["X"], D["y"], lam, .9), path=lambda m, D: (np.random.seed(2), ge.cv_glmnet(3, D["X"], D["y"], .9, lambdas=D["lams"], b=D["b"]))[1][4], active=lambda m, D: ge.elnet(D["X"], D["y"], lam, .9, active=D["active"])[0],
                      binom=lambda m, D: b1.binom_glmnet(D["Xb"], D["yb"], lb, .9, active=D["bact"])[0], binom2=lambda m, D: b2.binom_elnet(D["Xb"], D["yb"], lb, .9, cd_kws=D["kw"])[0],
                      lars=lambda m, D: lr.lars(D["X"], D["y"])[2], folds=lambda m, D: (np.random.seed(3), eu.crossval_mats(D["X"], D["y"], len(D["y"]), 3))[1])
            return Recipe(D, lambda D: None, ev, sig=(kind, p))
        from pystatsm.utilities.complexdesign.sample_design import SampleDesign
        H = int(r.integers(2, 4)); df = pd.DataFrame(dict(y=r.normal(size=n), x=r.normal(size=n), stratum=r.integers(0, H, n), psu=r.integers(0, 5, n), w=r.uniform(1, 4, n)))
        D = dict(df=df)
        return Recipe(D, lambda D: SampleDesign(D["df"], "stratum", "psu", "w"), dict(state=lambda m, D: [v for k, v in sorted(vars(m).items()) if isinstance(v, np.ndarray)]), sig=(kind, H))
    return kind, make


@workload("multivariate, robust, latent and penalised", quick=72, thorough=800, timeout=900)
def other(cx):
    kind, make = r_other(cx)
    play(cx, make, kind)
