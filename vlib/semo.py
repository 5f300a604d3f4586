"""Independent reading of structural-equation formulas.

A `Spec` is a list of statements (lhs, rel, [(modifier, rhs), ...]).  It is
printed to text for the code under test and read here directly, by the rules
the documentation states, as a reticular-action model: one matrix of directed
paths, one of (co)variances and one vector of means over *all* variables,
observed and latent together.  No matrix of the code under test is used."""
import numpy as np

VAR = "~~"


class Spec:
    def __init__(self, st, data_vars):
        self.st = st
        self.vars = list(data_vars)
        self.classify()

    def classify(self):
        one = "1"
        self.lat, self.ind, self.endo, self.exo, names = [], set(), set(), set(), []
        for l, r, rhs in self.st:
            for _, x in rhs:
                for v in (l, x):
                    if v != one and v not in names:
                        names.append(v)
                if r == "=~":
                    if l not in self.lat:
                        self.lat.append(l)
                    self.ind.add(x)
                elif r == "~" and x != one:
                    self.endo.add(l)
                    self.exo.add(x)
        self.names = names
        self.obs = [v for v in names if v not in self.lat]
        self.struct = (self.endo | self.exo) - set(self.lat)        # observed in regressions
        self.lav = self.struct | set(self.lat)
        self.lox = self.struct - self.endo - self.ind               # pure observed predictors
        self.lvx = set(self.lat) - self.ind - self.endo
        self.enx = self.endo - self.exo

    # ---- printing
    def text(self, rng=None, order=None, style=0):
        idx = list(range(len(self.st))) if order is None else order
        out = []
        for k in idx:
            l, r, rhs = self.st[k]
            sp = {0: " ", 1: "", 2: "  "}[style % 3]
            terms = [(x if m is None else f"{m}{sp if style == 2 else ''}*{sp if style == 2 else ''}{x}") for m, x in rhs]
            line = l + sp + r + sp + (sp + "+" + sp).join(terms)
            if style == 2:
                line = "   " + line + "   # note: " + l
            out.append(line)
            if style == 2:
                out.append("   ")
        if style == 2:
            out.insert(0, "# a comment line")
        return "\n".join(out) + ("\n" if style else "")

    # ---- meaning
    def table(self):
        if self._table is None:
            self._table = self._build()
        return self._table

    _table = None

    def _build(self):
        """{key: ('free', label|None) | ('fixed', value) | ('sample',)}; key = (rel, lhs, rhs), covariances sorted."""
        T, order = {}, []
        for l, r, rhs in self.st:
            for m, x in rhs:
                k = self.key(r, l, x)
                if m is None:
                    v = ("free", None)
                else:
                    try:
                        v = ("fixed", float(m))
                    except ValueError:
                        v = ("free", m)
                T[k] = v
                order.append(k)
        for f in self.lat:
            ks = [k for k in order if k[0] == "=~" and k[1] == f]
            if not any(T[k][0] == "fixed" for k in ks):
                lab = T[ks[0]][1]
                T[ks[0]] = ("fixed", 1.0)
                if lab is not None:                 # everything equal to it is fixed with it
                    for k in order:
                        if T[k] == ("free", lab):
                            T[k] = ("fixed", 1.0)
        for v in self.names:
            T.setdefault(self.key("~~", v, v), ("sample",) if v in self.lox else ("free", None))
            T.setdefault(("~", v, "1"), ("sample",) if v in self.lox else
                         (("fixed", 0.0) if v in self.lat else ("free", None)))
        for grp, val in ((self.lox, ("sample",)), (self.lvx, ("free", None)), (self.enx, ("free", None))):
            g = sorted(grp)
            for i in range(len(g)):
                for j in range(i):
                    T.setdefault(self.key("~~", g[i], g[j]), val)
        return T

    @staticmethod
    def key(r, l, x):
        if r == "~~":
            l, x = sorted((l, x))
        return (r, l, x)

    def mat(self, k):
        r, l, x = k
        if r == "=~":
            return 1 if x in self.lav else 0
        if r == "~" and x != "1":
            return 1
        if r == "~~":
            return 2 if l in self.lav else 3
        return 5 if l in self.lav else 4

    def theta_keys(self, G=1, shared=None):
        """expected free parameters: {canonical name: set of (group, key)}"""
        shared = [True] * 6 if shared is None else shared
        out = {}
        for g in range(G):
            for k, v in self.table().items():
                if v[0] == "free":
                    nm = ("label", v[1]) if v[1] is not None else k
                    if not shared[self.mat(k)]:
                        nm = (g, nm)
                    out.setdefault(nm, set()).add((g, k))
        return out

    def canon(self, name):
        """canonical name of a printed parameter name"""
        tok = str(name).split(" ")
        rels = ("=~", "~~", "~")
        if len(tok) >= 3 and tok[-2] in rels:
            k = self.key(tok[-2], tok[-3], tok[-1])
            return (int(tok[0]), k) if len(tok) == 4 else k
        if len(tok) == 2:
            return (int(tok[0]), ("label", tok[1]))
        return ("label", tok[0])

    def moments(self, val, g=0, sample=None):
        """val: {key: value} for free keys of this group -> (Sigma, mu) over self.names order restricted to observed"""
        n = len(self.names)
        ix = {v: i for i, v in enumerate(self.names)}
        dt = complex if any(isinstance(v, complex) for v in val.values()) else float
        A, S, M = np.zeros((n, n), dt), np.zeros((n, n), dt), np.zeros(n, dt)
        for k, v in self.table().items():
            r, l, x = k
            if v[0] == "free":
                u = val[k]
            elif v[0] == "fixed":
                u = v[1]
            else:
                C, m = sample
                u = m[l] if x == "1" else C[(l, x)]
            if r == "=~":
                A[ix[x], ix[l]] = u
            elif r == "~~":
                S[ix[l], ix[x]] = S[ix[x], ix[l]] = u
            elif x == "1":
                M[ix[l]] = u
            else:
                A[ix[l], ix[x]] = u
        E = np.linalg.inv(np.eye(n) - A)
        o = [ix[v] for v in self.obs]
        return (E @ S @ E.T)[np.ix_(o, o)], (E @ M)[o]


def sample_stats(X, cols):
    """plain sample moments (divisor n) as dictionaries by variable name"""
    V = np.asarray(X, float)
    m = V.mean(0)
    C = (V - m).T @ (V - m) / len(V)
    return ({(a, b): C[i, j] for i, a in enumerate(cols) for j, b in enumerate(cols)}, dict(zip(cols, m)))


class Model:
    """oracle for one data set: values by parameter name -> moments, discrepancy"""
    def __init__(self, spec, df, group=None, shared=None):
        self.spec, self.obs = spec, spec.obs
        lev = [None] if group is None else sorted(df[group].unique())
        self.X = [df[self.obs].values if g is None else df.loc[df[group] == g, self.obs].values for g in lev]
        self.ss = [sample_stats(x, self.obs) for x in self.X]
        self.G, self.n = len(lev), len(df)
        self.exp = spec.theta_keys(self.G, shared)
        self.S = [np.array([[s[0][(a, b)] for b in self.obs] for a in self.obs]) for s in self.ss]
        self.m = [np.array([s[1][a] for a in self.obs]) for s in self.ss]

    def vals(self, names, theta):
        out = [dict() for _ in range(self.G)]
        for nm, t in zip(names, theta):
            for g, k in self.exp[self.spec.canon(nm)]:
                out[g][k] = t
        return out

    def moments(self, names, theta):
        v = self.vals(names, theta)
        return [self.spec.moments(v[g], g, self.ss[g]) for g in range(self.G)]

    def moments_by(self, v):
        """v: {canonical name: value}"""
        out = [dict() for _ in range(self.G)]
        for c, t in v.items():
            for g, k in self.exp[c]:
                out[g][k] = t
        return [self.spec.moments(out[g], g, self.ss[g]) for g in range(self.G)]

    def full(self, v, g):
        """every entry of the model of group g, free or fixed: {key: value}"""
        val = {}
        for c, t in v.items():
            for gg, k in self.exp[c]:
                if gg == g:
                    val[k] = t
        C, m = self.ss[g]
        for k, s in self.spec.table().items():
            if s[0] == "fixed":
                val[k] = s[1]
            elif s[0] == "sample":
                val[k] = m[k[1]] if k[2] == "1" else C[(k[1], k[2])]
        return val

    def f(self, names, theta):
        tot = 0.0
        for g, (Sg, mu) in enumerate(self.moments(names, theta)):
            V = np.linalg.inv(Sg)
            r = self.m[g] - mu
            L = np.linalg.cholesky(Sg)
            ld = 2 * np.log(np.diag(L)).sum()
            tot += len(self.X[g]) / 2 * (ld - np.linalg.slogdet(self.S[g])[1] + np.trace(self.S[g] @ V) - len(mu) + r @ V @ r)
        return tot

    def nll_obs(self, names, theta):
        """negative log-density of every observation, groups in order"""
        out = []
        for g, (Sg, mu) in enumerate(self.moments(names, theta)):
            L = np.linalg.cholesky(Sg)
            z = np.linalg.solve(L, (self.X[g] - mu).T)
            out.append(0.5 * (z ** 2).sum(0) + np.log(np.diag(L)).sum() + 0.5 * len(mu) * np.log(2 * np.pi))
        return out


# ------------------------------------------------------------------ generator
POOL = ["x{}", "y{}", "item{}", "V{}", "q_{}", "z{}", "ab{}", "Xx{}"]


def make(rng, kind=None, mods=True, means=False, ident=True):
    kind = kind or str(rng.choice(["cfa", "cfa", "path", "full", "second", "mimic", "mixed"]))
    st = []
    nm = str(rng.choice(POOL))
    nums = [int(i) for i in rng.choice(np.arange(1, 30), 16, replace=False)] if rng.random() < .6 else list(range(1, 17))
    it = iter(nums)
    new = lambda: nm.format(next(it))
    fn = [str(s) for s in rng.permutation(["f", "eta", "visual", "G2", "g1", "Alpha"])]
    if kind == "path":
        xs = [new() for _ in range(int(rng.integers(1, 4)))]
        ys = [new() for _ in range(int(rng.integers(1, 4)))]
        for i, y in enumerate(ys):
            pr = [x for x in xs if rng.random() < .8] or [xs[0]]
            pr += [ys[j] for j in range(i) if rng.random() < .5]
            st.append((y, "~", [(None, str(v)) for v in rng.permutation(pr)]))
        used = {x for s in st for _, x in s[2]}
    else:
        k = {"cfa": int(rng.integers(1, 4)), "full": int(rng.integers(2, 4)), "second": 3, "mimic": int(rng.integers(1, 3)), "mixed": 2}[kind]
        lat = fn[:k]
        inds = {}
        for f in lat:
            p = int(rng.integers(3, 5))
            inds[f] = [new() for _ in range(p)]
            st.append((f, "=~", [(None, x) for x in inds[f]]))
        if kind == "cfa" and k > 1 and rng.random() < .4:            # cross loading
            f, g = lat[0], lat[1]
            st[0] = (f, "=~", st[0][2] + [(None, inds[g][-1])])
        if kind == "full":
            for i in range(1, k):
                pr = [lat[j] for j in range(i) if rng.random() < .8] or [lat[0]]
                st.append((lat[i], "~", [(None, v) for v in pr]))
        if kind == "second":
            st.append((fn[k], "=~", [(None, f) for f in lat]))
        if kind == "mimic":
            zs = [new() for _ in range(int(rng.integers(1, 3)))]
            for f in lat:
                st.append((f, "~", [(None, z) for z in zs]))
            if rng.random() < .4:
                st.append((inds[lat[0]][1], "~", [(None, zs[0])]))    # direct effect on an indicator
        if kind == "mixed":
            y, z = new(), new()
            st.append((lat[1], "~", [(None, lat[0]), (None, z)]))
            st.append((y, "~", [(None, lat[1])] + ([(None, z)] if rng.random() < .5 else [])))
    s0 = Spec(st, [])
    if mods:
        lab = [str(v) for v in rng.permutation(["a", "lam", "b1", "w_2", "eq"])]
        def setmod(i, j, m):
            l, r, rhs = st[i]
            st[i] = (l, r, [(m, x) if jj == j else (mm, x) for jj, (mm, x) in enumerate(rhs)])
        meas = [i for i, s in enumerate(st) if s[1] == "=~"]
        regs = [i for i, s in enumerate(st) if s[1] == "~"]
        free_ind = [x for x in s0.obs if x not in s0.lav]
        for _ in range(int(rng.integers(0, 4))):
            c = str(rng.choice(["eqload", "fixload", "marker", "rescov", "eqvar", "fixvar", "fixcov", "eqreg", "fixreg", "mean", "eqmean", "lox"]))
            if c == "eqload" and meas:
                i = int(rng.choice(meas)); m = lab[0]
                for j in range(1, len(st[i][2])):
                    if rng.random() < .8 and st[i][2][j][0] is None:
                        setmod(i, j, m)
            elif c == "fixload" and meas:
                i = int(rng.choice(meas)); j = int(rng.integers(1, len(st[i][2])))
                if st[i][2][0][0] is None and st[i][2][j][0] is None:
                    setmod(i, j, str(rng.choice(["0.5", "1", "1.25", "2e-1"]))); setmod(i, 0, "1")
            elif c == "marker" and meas:                              # another marker variable, first loading free
                i = int(rng.choice(meas)); j = len(st[i][2]) - 1
                if all(m is None for m, _ in st[i][2]):
                    setmod(i, j, "1")
            elif c == "rescov" and len(free_ind) >= 2:
                a, b = [str(v) for v in rng.choice(free_ind, 2, replace=False)]
                st.append((a, "~~", [(None if rng.random() < .7 else "0.05", b)]))
            elif c == "eqvar" and len(free_ind) >= 2:
                a, b = [str(v) for v in rng.choice(free_ind, 2, replace=False)]
                st += [(a, "~~", [(lab[1], a)]), (b, "~~", [(lab[1], b)])]
            elif c == "fixvar" and free_ind:
                a = str(rng.choice(free_ind)); st.append((a, "~~", [("0.7", a)]))
            elif c == "fixcov" and len(s0.lvx) >= 2:
                a, b = sorted(s0.lvx)[:2]; st.append((a, "~~", [("0", b)]))
            elif c == "eqreg" and regs:
                i = int(rng.choice(regs))
                if len(st[i][2]) > 1 and all(m is None for m, _ in st[i][2]):
                    setmod(i, 0, lab[2]); setmod(i, 1, lab[2])
            elif c == "fixreg" and regs:
                i = int(rng.choice(regs)); setmod(i, 0, "0.3")
            elif c == "mean" and free_ind:
                a = str(rng.choice(free_ind)); st.append((a, "~", [("0.2", "1")]))
            elif c == "eqmean" and len(free_ind) >= 2:
                a, b = [str(v) for v in rng.choice(free_ind, 2, replace=False)]
                st += [(a, "~", [(lab[3], "1")]), (b, "~", [(lab[3], "1")])]
            elif c == "lox" and len(s0.lox) >= 2:
                a, b = sorted(s0.lox)[:2]; st.append((a, "~~", [("0.1" if rng.random() < .5 else None, b)]))
        if means and s0.lat and rng.random() < .5:
            st.append((s0.lat[0], "~", [(None, "1")]))
    # a pair may be stated once only
    seen, out = set(), []
    for l, r, rhs in st:
        keep = []
        for m, x in rhs:
            k = Spec.key(r, l, x)
            if k not in seen:
                seen.add(k); keep.append((m, x))
        if keep:
            out.append((l, r, keep))
    # labels that end up on one parameter only are fine (they just name it)
    return Spec(out, []), kind


def draw(rng, spec, G, shared=None):
    """plausible parameter values by canonical name"""
    out = {}
    for nm, ks in spec.theta_keys(G, shared).items():
        g, k = sorted(ks)[0]
        r, l, x = k
        if r == "=~":
            v = rng.uniform(.5, 1.2)
        elif r == "~~" and l == x:
            v = rng.uniform(.8, 1.6)
        elif r == "~~":
            v = rng.uniform(-.15, .15)
        elif x == "1":
            v = rng.normal()
        else:
            v = rng.uniform(-.6, .6)
        out[nm] = float(v)
    return out
