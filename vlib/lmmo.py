"""Data generator and dense oracle for Gaussian linear mixed models."""
import numpy as np, pandas as pd, patsy

RE = ["1", "1+x1", "0+x1", "1+x1+x2", "1+t", "0+x1+x2", "1+b"]


def labels(r, codes, k):
    kind = r.integers(5)
    if kind == 0: return codes, "int"
    if kind == 1: return np.array([f"lev{c}" for c in r.permutation(k)])[codes], "str"
    if kind == 2: return r.choice(1000, k, replace=False)[codes] * 1.0, "float"
    if kind == 3: return pd.Categorical(np.array([f"c{c}" for c in r.permutation(k)])[codes]), "categorical"
    return r.permutation(k * 3)[:k][codes] - 5, "shuffled int"


def make(r, n_terms=None, n=None, well=False):
    """A data frame with covariates x1,x2 (continuous), t (balanced, centred), b (0/1) and a mixed-model formula."""
    n_terms = int(r.integers(1, 3)) if n_terms is None else n_terms
    style = r.choice(["balanced", "random", "zeros", "few"]) if not well else "random"
    k1 = int(r.integers(3, 9)) if not well else int(r.integers(14, 22))
    if style == "balanced":
        per = int(r.choice([3, 4, 5])); g1 = np.repeat(np.arange(k1), per); t = np.tile(np.arange(per) - (per - 1) / 2, k1); n = len(g1)
    else:
        n = int(r.integers(18, 60)) if n is None else n
        if well: n = k1 * int(r.integers(7, 10))
        g1 = np.r_[np.arange(k1), r.integers(0, k1, n - k1)]; t = r.integers(-2, 3, n).astype(float)
    k2 = int(r.integers(2, 6)) if not well else int(r.integers(10, 14))
    g2 = r.integers(0, k2, n); g2[:k2] = np.arange(k2)
    p = r.permutation(n) if r.random() < .6 else np.arange(n)
    g1, t, g2 = g1[p], t[p], g2[p]
    df = pd.DataFrame(dict(x1=r.normal(size=n), x2=r.normal(size=n), t=t, b=(r.random(n) < .5) * 1.0))
    if style == "zeros": df.loc[np.isin(g1, r.choice(k1, max(1, k1 // 3), replace=False)), "x1"] = 0.0
    codes = [g1, g2]; lab = []
    for j, (c, k) in enumerate(((g1, k1), (g2, k2))):
        v, l = labels(r, c, k); df[f"g{j + 1}"] = v; lab.append(l)
    res = [RE[i] for i in r.choice(len(RE), n_terms)]
    if well: res = [["1", "1+x1"][r.integers(2)]] + ["1"] * (n_terms - 1)
    if style == "balanced" and r.random() < .7: res[0] = "1+t"
    fe = ["1 + x1", "1", "1 + x1 + x2", "x1 + b", "0 + x1 + x2", "1 + t"][r.integers(6)]
    sl = [["g1", "g2"][j] for j in range(n_terms)]
    mu = 1.0 + .5 * df.x1.values + .3 * df.t.values
    sc = 1.0
    for j, (re, g) in enumerate(zip(res, sl)):
        X = np.asarray(patsy.dmatrix(re, df)); q = X.shape[1]; B = r.normal(size=(q, q)) * .4 + np.eye(q)
        U = r.normal(size=(codes[j].max() + 1, q)) @ B.T
        mu = mu + (X * U[codes[j]]).sum(1)
    df["y"] = mu + sc * r.normal(size=n)
    form = f"y ~ {fe} + " + " + ".join(f"({re}|{g})" for re, g in zip(res, sl))
    return dict(df=df, formula=form, fe=fe, re=res, gr=sl, style=style, labels=lab, n=n)


def order_of(col, how):
    v = np.asarray(col)
    if how == "appearance": return list(dict.fromkeys(v.tolist()))
    return sorted(set(v.tolist()))


class Dense:
    """Marginal model y ~ N(X b, sum_k Z_k (A_k x G_k) Z_k' + s I)."""

    def __init__(self, d, order="appearance", A=None):
        df = d["df"]; self.X = np.asarray(patsy.dmatrix(d["fe"], df)); self.y = df["y"].values.astype(float); self.n = len(df)
        self.Z, self.q, self.lev = [], [], []
        for re, g in zip(d["re"], d["gr"]):
            W = np.asarray(patsy.dmatrix(re, df)); lev = order_of(df[g], order); ix = {v: i for i, v in enumerate(lev)}
            q = W.shape[1]; Z = np.zeros((self.n, q * len(lev)))
            for i, v in enumerate(np.asarray(df[g]).tolist()):
                Z[i, ix[v] * q:(ix[v] + 1) * q] = W[i]
            self.Z.append(Z); self.q.append(q); self.lev.append(lev)
        self.A = A or [np.eye(len(l)) for l in self.lev]
        self.np_ = [q * (q + 1) // 2 for q in self.q]; self.npar = sum(self.np_) + 1
        self.dV = []
        for Z, q, A_ in zip(self.Z, self.q, self.A):
            for c in range(q):
                for rr in range(c, q):
                    E = np.zeros((q, q)); E[rr, c] = E[c, rr] = 1
                    self.dV.append(Z @ np.kron(A_, E) @ Z.T)
        self.dV.append(np.eye(self.n))
        self.dV = np.array(self.dV)

    def G(self, th):
        out, o = [], 0
        for q, m in zip(self.q, self.np_):
            S = np.zeros((q, q)); k = o
            for c in range(q):
                for rr in range(c, q):
                    S[rr, c] = S[c, rr] = th[k]; k += 1
            out.append(S); o += m
        return out

    def random_theta(self, r, scale=None):
        th = []
        for q in self.q:
            B = r.normal(size=(q, q)); S = B @ B.T / q + 0.15 * np.eye(q)
            if q > 1 and r.random() < .15: S = np.diag(np.diag(S))       # exact zeros
            S = S * 10.0 ** r.uniform(-1.2, 1.2)
            th += [S[i, j] for j in range(q) for i in range(j, q)]
        return np.array(th + [10.0 ** r.uniform(-1, 1)])

    def V(self, th):
        return np.einsum("k,kij->ij", th, self.dV)

    def parts(self, th):
        V = self.V(th); Vi = np.linalg.inv(V); XV = self.X.T @ Vi; C = np.linalg.inv(XV @ self.X); P = Vi - XV.T @ C @ XV
        return V, Vi, XV, C, P

    def loglike(self, th, reml=True):
        V, Vi, XV, C, P = self.parts(th)
        return np.linalg.slogdet(V)[1] + self.y @ P @ self.y - (np.linalg.slogdet(C)[1] if reml else 0.0)

    def gradient(self, th, reml=True):
        V, Vi, XV, C, P = self.parts(th); T = P if reml else Vi; Py = P @ self.y
        return np.array([np.sum(T * D) - Py @ D @ Py for D in self.dV])

    def hessian(self, th, reml=True):
        V, Vi, XV, C, P = self.parts(th); T = P if reml else Vi; Py = P @ self.y
        TD = [T @ D for D in self.dV]; DP = [D @ Py for D in self.dV]; m = len(TD)
        return np.array([[-np.sum(TD[i] * TD[j].T) + 2 * DP[i] @ P @ DP[j] for j in range(m)] for i in range(m)])

    def effects(self, th):
        V, Vi, XV, C, P = self.parts(th); b = C @ XV @ self.y; e = Vi @ (self.y - self.X @ b)
        u = [np.kron(A, G) @ Z.T @ e for Z, G, A in zip(self.Z, self.G(th), self.A)]
        return b, C, u
