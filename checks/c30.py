"""C30: mixed-model formulas and random-effects designs."""
import numpy as np
import pandas as pd
import patsy
import scipy.sparse as sps
from vlib import lmmo
from vlib.mon import workload


def frame(rng, n=None):
    n = int(rng.integers(12, 50)) if n is None else n
    d = pd.DataFrame({v: rng.uniform(0.5, 3.0, n) for v in ["x1", "x2", "age", "z_3", "y", "resp2"]})
    d["f"] = np.array(["lo", "mid", "hi"])[rng.permutation(np.arange(n) % 3)]
    for g in ["g1", "g2", "site"]:
        k = int(rng.integers(2, 6))
        c = np.r_[np.arange(k), rng.integers(0, k, n - k)]
        c = c[rng.permutation(n)]
        d[g] = lmmo.labels(rng, c, k)[0]
    return d


FE = ["x1", "x2", "age", "z_3", "C(f)", "np.log(x1)", "x1:x2", "x1*age", "np.exp(-x2)", "f"]
RE = ["1", "1+x1", "0+x1", "x2", "1 + x1 + z_3", "0+x1+x2", "-1+age", "1+np.log(age)", "x1*x2", "f", "0+f"]


def grammar(rng):
    """Random formula with its parts; the parts never go through the code under test."""
    sp = lambda: " " * int(rng.choice([0, 1, 1, 2]))
    ys = list(rng.choice(["y", "resp2"], size=int(rng.choice([1, 1, 2])), replace=False))
    fe = list(rng.choice(FE, size=int(rng.integers(0, 4)), replace=False))
    icpt = str(rng.choice(["", "1", "0", "-1"]))
    k = int(rng.integers(1, 4))
    res = [(str(rng.choice(RE)), str(rng.choice(["g1", "g2", "site"]))) for _ in range(k)]
    items = [("fe", t) for t in fe]
    if icpt in ("1", "0"):
        items.insert(0, ("fe", icpt))
    place = str(rng.choice(["end", "start", "mixed"]))
    ritems = [("re", r) for r in res]
    if place == "end":
        items = items + ritems
    elif place == "start":
        items = ritems + items
    else:
        for r in ritems:
            items.insert(int(rng.integers(0, len(items) + 1)), r)
    parts = []
    for kind, v in items:
        if kind == "fe":
            parts.append(v)
        else:
            parts.append("(" + sp() + v[0] + sp() + "|" + sp() + v[1] + sp() + ")")
    rhs = (sp() + "+" + sp()).join(parts)
    tail = ""
    if icpt == "-1":
        tail = sp() + "-" + sp() + "1"
    lhs = ys[0] if len(ys) == 1 else "(" + ("," + sp()).join(ys) + ")"
    order = [v for kd, v in items if kd == "re"]
    fe_written = "+".join([v for kd, v in items if kd == "fe"]) or "1"
    if icpt == "-1":
        fe_written += " - 1"
    return dict(formula=lhs + sp() + "~" + sp() + rhs + tail, ys=ys, res=order, fe=fe_written, place=place,
                icpt=icpt, terms=[t for kd, t in items if kd == "fe" and t not in ("0", "1")])


def squash(s):
    return "".join(s.split())


@workload("mixed-model formulas", quick=250, thorough=4000, shards=2, timeout=300)
def w_parse(cx):
    from pystatsm.utilities.formula import parse_random_effects
    rng = cx.rng
    g = grammar(rng)
    df = frame(rng, 24)
    cx.case((g["place"], g["icpt"], len(g["res"]), len(g["ys"]), len(g["terms"])))
    want = patsy.dmatrix(g["fe"], df, return_type="dataframe")
    m = parse_random_effects(g["formula"])
    cx.ok("response variables", list(m["y_vars"]) == g["ys"], (g["formula"], m["y_vars"]))
    got = [(squash(a), squash(b)) for a, b in m["re_terms"]]
    cx.ok("random-effect terms in order", got == [(squash(a), b) for a, b in g["res"]], (g["formula"], got))
    cx.ok("grouping factors", [squash(x) for x in m["re_groupings"]] == [b for _, b in g["res"]])
    cx.ok("random-effect formulas", [squash(x) for x in m["re_forms"]] == [squash(a) for a, _ in g["res"]])
    X = patsy.dmatrix(m["fe_form"], df, return_type="dataframe")
    cx.ok("fixed-effects part keeps its columns", sorted(X.columns) == sorted(want.columns),
          (g["formula"], m["fe_form"], list(X.columns), list(want.columns)))
    if sorted(X.columns) == sorted(want.columns):
        cx.close("fixed-effects part keeps its values", X[want.columns].values, want.values, 1e-12, 1e-12)
    xv = m["x_vars"]
    cx.ok("covariates listed once", len(xv) == len(set(xv)))
    cx.ok("covariates are trimmed", all(v == v.strip() and v for v in xv), xv)
    plain = set(df.columns)
    want_plain = {t for t in g["terms"] if t in plain} if g["icpt"] != "-1" else set()
    cx.ok("plain covariates are listed", want_plain <= set(xv), (want_plain, xv))


def rows_oracle(re, gr, df, order):
    Xr = np.asarray(patsy.dmatrix(re, df, return_type="dataframe"))
    lev = list(order)
    p = Xr.shape[1]
    Z = np.zeros((len(df), len(lev) * p))
    v = df[gr].tolist()
    pos = {l: i for i, l in enumerate(lev)}
    for i in range(len(df)):
        j = pos[v[i]]
        Z[i, j * p:(j + 1) * p] = Xr[i]
    return Z, p, len(lev)


def dense(M):
    return M.toarray() if hasattr(M, "toarray") else np.asarray(M)


def spd(rng, p):
    A = rng.normal(size=(p, p + 2))
    return A @ A.T + 0.1 * np.eye(p)


def vech(S):
    return np.concatenate([S[j:, j] for j in range(len(S))])


def partition(cx, name, inds, size):
    flat = np.concatenate([np.arange(size)[i] if isinstance(i, slice) else np.asarray(i) for i in inds]) if len(inds) else []
    cx.ok(name, np.array_equal(np.sort(flat), np.arange(size)), (name, size, [str(i)[:40] for i in inds]))


def res_case(rng):
    df = frame(rng)
    for g in ("g1", "g2"):
        if rng.random() < 0.25:
            s = df[g].astype(str)
            df[g] = pd.Categorical(s, categories=["unused0"] + sorted(s.unique()) + ["zz_unused"])
    if rng.random() < 0.5:
        df.index = rng.permutation(1000)[:len(df)]
    k = int(rng.integers(1, 4))
    terms = [(str(rng.choice(RE)), str(rng.choice(["g1", "g2", "site"]))) for _ in range(k)]
    return df, terms


@workload("sorted-level designs", quick=80, thorough=800, shards=3, timeout=400)
def w_gen1(cx):
    from pystatsm.pylmm.ranef_terms import RandomEffects, RandomEffectTerm
    from pystatsm.pylmm.lmm import LMM
    rng = cx.rng
    df, terms = res_case(rng)
    keep = df.copy(deep=True)
    cx.case((tuple(t[0] for t in terms), len(set(t[1] for t in terms))))
    tr = [RandomEffectTerm(a, b, df) for a, b in terms]
    re = RandomEffects(tr)
    blocks = [rows_oracle(a, b, df, sorted(set(df[b].tolist()))) for a, b in terms]
    Zs = np.hstack([b[0] for b in blocks])
    cx.close("covariates sit in the group's block", dense(re.Z), Zs, 1e-12, 1e-12)
    q = Zs.shape[1]
    m = [p * (p + 1) // 2 for _, p, _ in blocks]
    cx.ok("block sizes", [t.n_group for t in tr] == [b[2] for b in blocks] and [t.n_rvars for t in tr] == [b[1] for b in blocks]
          and list(re.n_pars) == m and list(re.group_sizes) == [b[2] for b in blocks])
    partition(cx, "parameter indices partition the parameters", re.t_inds, len(re.theta))
    partition(cx, "covariance indices partition the covariance", re.g_inds, len(re.g_data))
    partition(cx, "factor indices partition the factor", re.l_inds, len(re.l_data))
    partition(cx, "design columns are partitioned", re.jac_inds, q)
    u = re.get_u_indices()
    partition(cx, "effect indices partition the effects", [u[i] for i in range(len(terms))], q)
    cx.ok("effect indices match the blocks", all(np.array_equal(u[i], re.jac_inds[i]) for i in range(len(terms))))
    w = re.wishart_info()
    cx.ok("group counts", all(w[i]["q"] == blocks[i][2] and w[i]["k"] == blocks[i][1] for i in w) and len(w) == len(terms))
    eye = np.eye(q)
    cx.close("starting covariance is the identity", dense(re.G), eye, 0, 0)
    Gs = [spd(rng, b[1]) for b in blocks]
    theta = np.concatenate([vech(G) for G in Gs] + [[0.7]])
    want = np.zeros((q, q))
    want_l = np.zeros((q, q))
    s = 0
    for G, (_, p, k) in zip(Gs, blocks):
        want[s:s + p * k, s:s + p * k] = np.kron(np.eye(k), G)
        want_l[s:s + p * k, s:s + p * k] = np.kron(np.eye(k), np.linalg.cholesky(G))
        s += p * k
    for t, ix in zip(Gs, re.t_inds):
        cx.close("parameter slices", theta[ix], vech(t), 0, 0)
    for i, t in enumerate(tr):
        k, p = blocks[i][2], blocks[i][1]
        for j in range(t.n_param):
            d = np.zeros(t.n_param)
            d[j] = 1.0
            S = np.zeros((p, p))
            r, c = [(r, c) for c in range(p) for r in range(c, p)][j]
            S[r, c] = 1
            cx.close("factor derivative pattern", dense(t.L_deriv[j]), np.kron(np.eye(k), S), 0, 0)
            cx.close("covariance derivative pattern", dense(t.G_deriv[j]), np.kron(np.eye(k), np.maximum(S, S.T)), 0, 0)
    distinct = " + ".join(f"({a}|{b})" for a, b in terms)
    mod = LMM("y ~ x1 + " + distinct, df)
    cx.close("model design", dense(mod.Z), Zs, 1e-12, 1e-12)
    cx.close("model response", np.ravel(mod.y), df["y"].values, 0, 0)
    cx.close("parameters land in the covariance", dense(mod.update_gmat(theta.copy())), want, 1e-12, 1e-12)
    cx.close("parameters land in the inverse", dense(mod.update_gmat(theta.copy(), inverse=True)) @ want, eye, 1e-8, 1e-8)
    cx.close("parameters land in the factor", dense(mod.update_lmat(theta.copy())), want_l, 1e-10, 1e-10)
    cx.close("parameters land in the inverse factor", dense(mod.update_lmat(theta.copy(), inverse=True)) @ want_l, eye, 1e-8, 1e-8)
    cx.close("covariance restored", dense(mod.update_gmat(theta.copy())), want, 1e-12, 1e-12)
    cx.ok("data unchanged", df.equals(keep))


@workload("first-seen-level designs", quick=80, thorough=800, shards=3, timeout=400)
def w_gen2(cx):
    from pystatsm.pylmm.re_mod import RandomEffects, LMM2
    rng = cx.rng
    df, terms = res_case(rng)
    keep = df.copy(deep=True)
    blocks = [rows_oracle(a, b, df, dict.fromkeys(df[b].tolist())) for a, b in terms]
    As = None
    kinds = ["none"] * len(terms)
    if rng.random() < 0.5:
        As = []
        for i, (_, p, k) in enumerate(blocks):
            kind = str(rng.choice(["none", "dense", "sparse"]))
            kinds[i] = kind
            if kind == "none":
                As.append(None)
                continue
            A = spd(rng, k)
            if rng.random() < 0.5:
                A = np.where(np.abs(np.subtract.outer(np.arange(k), np.arange(k))) > 1, 0, A)
                A += np.eye(k) * np.abs(A).sum(1)
            As.append(sps.csc_matrix(A) if kind == "sparse" else A)
    cx.case((tuple(t[0] for t in terms), tuple(kinds)))
    re = RandomEffects(terms, df, As)
    Zs = np.hstack([b[0] for b in blocks])
    cx.close("covariates sit in the group's block", dense(re.Z), Zs, 1e-12, 1e-12)
    q = Zs.shape[1]
    for t, (a, b), (_, p, k) in zip(re.gterms, terms, blocks):
        cx.ok("levels in order of appearance", list(t.levels) == list(dict.fromkeys(df[b].tolist())))
        cx.ok("block sizes", (t.n_levels, t.n_revars, t.n_ranefs) == (k, p, k * p))
        cx.ok("covariate names", list(t.var_names) == list(patsy.dmatrix(a, df, return_type="dataframe").columns))
    partition(cx, "parameter slices partition the parameters", re.theta_sl, re.n_par)
    partition(cx, "effect slices partition the effects", re.ranef_sl, q)
    partition(cx, "covariance slices partition the covariance", re.gdata_sl, len(re.g_data))
    cx.ok("parameter owners", np.array_equal(re.theta_to_term, np.repeat(np.arange(len(terms) + 1), re.n_pars)) and len(re.theta) == re.n_par)
    Gs = [spd(rng, b[1]) for b in blocks]
    s2 = float(rng.uniform(0.2, 3))
    theta = np.concatenate([vech(G) for G in Gs] + [[s2]])
    want = np.zeros((q, q))
    s = 0
    lnd = 0.0
    Ad = []
    for i, (G, (_, p, k)) in enumerate(zip(Gs, blocks)):
        A = np.eye(k) if As is None or As[i] is None else dense(As[i])
        Ad.append(A)
        want[s:s + p * k, s:s + p * k] = np.kron(A, G)
        lnd += np.linalg.slogdet(np.kron(A, G))[1]
        s += p * k
    eye = np.eye(q)
    cx.closen("parameters land in the covariance", dense(re.update_gcov(theta)), want, 1e-9, 1e-10)
    cx.closen("parameters land in the inverse", dense(re.update_gcov(theta, inv=True)) @ want, eye, 1e-6, 1e-8)
    cx.closen("covariance restored", dense(re.update_gcov(theta)), want, 1e-9, 1e-10)
    cx.close("covariance determinant", re.lndet_gmat(theta), lnd, 1e-7, 1e-7)
    n = len(df)
    cx.close("residual covariance", dense(re.update_rcov(theta)), s2 * np.eye(n), 1e-12, 0)
    cx.close("residual determinant", re.lndet_rmat(theta), n * np.log(s2), 1e-9, 1e-9)
    eta = re.reparam.fwd(theta.copy())
    cx.closen("transformed parameters land in the covariance", dense(re.update_gcov_reparam(eta)), want, 1e-8, 1e-9)
    cx.close("parameter round trip", re.reparam.rvs(eta), theta, 1e-8, 1e-9)
    # one derivative matrix per parameter, each the pattern of that parameter in its own block
    der = re.G_derivs
    cx.ok("one derivative per parameter", len(der) == re.n_par, (len(der), re.n_par))
    j = 0
    for A, (_, p, k) in zip(Ad, blocks):
        for c in range(p):
            for r in range(c, p):
                S = np.zeros((p, p))
                S[r, c] = S[c, r] = 1
                cx.closen("covariance derivative pattern", dense(der[j]), np.kron(A, S), 1e-10, 1e-12)
                j += 1
    fe = ["1", "x1", "0 + x1 + x2", "C(f) + age", "x1*x2"][int(rng.integers(5))]
    mod = LMM2(f"y ~ {fe} + " + " + ".join(f"({a}|{b})" for a, b in terms), df)
    cx.close("model design", dense(mod.mme.Z), Zs, 1e-12, 1e-12)
    want_x = patsy.dmatrix(fe, df, return_type="dataframe")
    cx.ok("fixed design: columns", mod.mme.X.shape == want_x.shape and len(mod.fe_names) == want_x.shape[1], (mod.fe_names, list(want_x.columns)))
    # both engines name the terms; compare the column spaces column by column in their own order
    cx.close("fixed design: values", np.sort(np.asarray(mod.mme.X, float).sum(0)), np.sort(want_x.values.sum(0)), 1e-10, 1e-10)
    cx.close("model response", np.ravel(mod.mme.y), df["y"].values, 0, 0)
    cx.ok("data unchanged", df.equals(keep))


@workload("relabelled groups", quick=30, thorough=300, shards=2, timeout=400)
def w_relabel(cx):
    """The likelihood sees groups, not their labels, row order or unused levels."""
    from pystatsm.pylmm.lmm import LMM
    from pystatsm.pylmm.re_mod import LMM2
    rng = cx.rng
    M = lmmo.make(rng)
    df = M["df"]
    cx.case((tuple(M["res"] if "res" in M else M["re"]), tuple(M["labels"])))
    a = LMM2(M["formula"], df)
    theta = np.concatenate([vech(spd(rng, t.n_revars)) for t in a.mme.re_mod.gterms] + [[0.8]])
    base2 = a.loglike(theta, True)
    base1 = LMM(M["formula"], df).loglike(theta.copy(), True)
    alt = df.copy()
    for g in sorted(set(M["gr"])):
        u = list(dict.fromkeys(alt[g].tolist()))
        new = [f"n{v}" for v in rng.permutation(len(u))] if rng.random() < 0.5 else list(rng.permutation(1000)[:len(u)])
        col = [dict(zip(u, new))[v] for v in alt[g].tolist()]
        if rng.random() < 0.3:
            col = pd.Categorical([str(v) for v in col], categories=["absent"] + sorted({str(v) for v in col}))
        alt[g] = col
    alt = alt.iloc[rng.permutation(len(alt))]
    cx.close("first-seen-level model ignores labels and order", LMM2(M["formula"], alt).loglike(theta, True), base2, 1e-7, 1e-6)
    cx.close("sorted-level model ignores labels and order", LMM(M["formula"], alt).loglike(theta.copy(), True), base1, 1e-7, 1e-6)


@workload("smooth terms", quick=150, thorough=2000, shards=1, timeout=300)
def w_smooth(cx):
    from pystatsm.pygam.smooth_setup import parse_smooths, get_parametric_formula
    rng = cx.rng
    df = frame(rng, 20)
    sp = lambda: " " * int(rng.choice([0, 0, 1, 2]))
    k = int(rng.integers(1, 4))
    xs = list(rng.choice(["x1", "x2", "age", "z_3"], size=k, replace=False))
    pf = list(rng.choice(["resp2", "C(f)", "np.cos(resp2)", "np.log(resp2)", "np.abs(resp2)"], size=int(rng.integers(0, 3)), replace=False))
    want, items = {}, []
    for x in xs:
        d = dict(df=10, kind="cr", by=None)
        args = [x]
        style = int(rng.integers(4))
        if style in (1, 2):
            d["df"] = int(rng.integers(4, 30))
            args.append(str(d["df"]) if style == 1 else f"df{sp()}={sp()}{d['df']}")
        if style in (2, 3):
            d["kind"] = str(rng.choice(["cr", "bs", "cc"]))
            qt = str(rng.choice(["'", '"']))
            args.append(f"kind={qt}{d['kind']}{qt}")
        if rng.random() < 0.4:
            d["by"] = "f"
            args.append("by=f")
        want[x] = d
        items.append("s(" + ("," + sp()).join(args) + ")")
    items += pf
    rng.shuffle(items)
    form = "y" + sp() + "~" + sp() + (sp() + "+" + sp()).join(items)
    if rng.random() < 0.2 and pf:
        form += " - 1"
    keep = df.copy(deep=True)
    cx.case((k, len(pf), "- 1" in form))
    got = parse_smooths(form, df)
    cx.ok("smooth variables", sorted(got) == sorted(xs), (form, sorted(got)))
    for x in xs:
        if x not in got:
            continue
        g, w = got[x], want[x]
        cx.ok("smooth options", g["df"] == w["df"] and g["kind"] == w["kind"], (form, g["df"], g["kind"], w))
        cx.close("smooth covariate", g["x"], df[x].values, 0, 0)
        if w["by"] is None:
            cx.ok("no grouping", g["by"] is None)
        else:
            cats = list(g["by"]["by_cats"])
            cx.ok("grouping levels", cats == sorted(df["f"].unique()))
            cx.close("grouping indicator", g["by"]["by_vals"], np.array([[float(v == c) for c in cats] for v in df["f"]]), 0, 0)
    frm = get_parametric_formula(form)
    rhs = frm.split("~")[1]
    wantX = patsy.dmatrix("+".join(pf or ["1"]) + (" - 1" if form.endswith("- 1") else ""), df, return_type="dataframe")
    X = patsy.dmatrix(rhs, df, return_type="dataframe")
    cx.ok("parametric part", sorted(map(squash, X.columns)) == sorted(map(squash, wantX.columns)), (form, frm, list(X.columns)))
    cx.ok("response side", squash(frm.split("~")[0]) == "y")
    cx.ok("data unchanged", df.equals(keep))


@workload("regression designs and tables", quick=80, thorough=800, shards=1, timeout=300)
def w_design(cx):
    from pystatsm.utilities.formula import design_matrices
    from pystatsm.utilities import data_utils as du
    rng = cx.rng
    df = frame(rng)
    miss = rng.random() < 0.5
    if miss:
        for v in ("x1", "y"):
            df.loc[rng.random(len(df)) < 0.15, v] = np.nan
    fe = str(rng.choice(["x1", "x1 + C(f)", "x1*x2 - 1", "1", "np.log(x1) + f"]))
    cx.case((fe, miss))
    lhs, rhs = design_matrices("y ~ " + fe, df)
    used = ["y"] + (["x1"] if "x1" in fe else []) + (["x2"] if "x2" in fe else [])
    ok = df[used].notna().all(axis=1)
    want = patsy.dmatrix(fe, df[ok], return_type="dataframe")
    cx.ok("complete rows kept", list(lhs.index) == list(df.index[ok]) and list(rhs.index) == list(df.index[ok]))
    cx.ok("design columns", list(rhs.columns) == list(want.columns))
    cx.close("design values", rhs.values, want.values, 1e-12, 1e-12)
    cx.close("response values", np.ravel(lhs.values), df.loc[ok, "y"].values, 0, 0)
    x = df["g1"]
    lev = sorted(set(x.tolist()))
    I = np.array([[float(v == l) for l in lev] for v in x.tolist()])
    cx.close("indicator coding", du.dummy(x), I, 0, 0)
    cx.close("reduced indicator coding", du.dummy(x, fullrank=False), I[:, :-1], 0, 0)
    cx.close("sparse indicator coding", du.dummy_encode(x).toarray(), I, 0, 0)
    r, c, k = du._dummy_encode(x)
    cx.ok("row and column codes", k == len(lev) and np.array_equal(np.sort(r), np.arange(len(x))) and all(I[a, b] == 1 for a, b in zip(r, c)))
    m = int(rng.integers(2, 4))
    arr = np.column_stack([rng.choice([1, 4, 7, 9], len(df)) for _ in range(m)])
    tab, levels = du.cross_tabulate(arr)
    cx.ok("cross table levels", all(np.array_equal(levels[j], np.unique(arr[:, j])) for j in range(m)))
    ref = np.zeros([len(v) for v in levels])
    for row in arr:
        ref[tuple(list(levels[j]).index(row[j]) for j in range(m))] += 1
    cx.close("cross table counts", tab, ref, 0, 0)
    ex = du.expand_crosstab(tab)
    back = np.array([[list(levels[j]).index(v) for j, v in enumerate(row)] for row in arr])
    cx.ok("cross table expands to its rows", sorted(map(tuple, ex.astype(int))) == sorted(map(tuple, back)))
    col = int(rng.integers(0, m))
    cnt, rl, cl, _ = du.flat_cross_tabulate(arr, column_dim=col)
    rest = [j for j in range(m) if j != col]
    want = np.array([[np.sum((arr[:, rest] == lab).all(1) & (arr[:, col] == cv)) for cv in cl] for lab in rl])
    cx.close("flat cross table counts", cnt, want, 0, 0)
    v = rng.normal(size=int(rng.integers(5, 30)))
    kk = int(rng.integers(1, len(v)))
    for big in (True, False):
        ix = du.extremal_indices(v, kk, largest=big)
        cx.ok("extreme values", np.array_equal(np.sort(v[ix]), np.sort(v)[-kk:] if big else np.sort(v)[:kk]))
