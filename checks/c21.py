"""C21: structural-equation formulas translate to the model they describe."""
import numpy as np
import pandas as pd
from vlib.mon import workload
from vlib import semo
from checks.c20 import data, build, perm


def rows(df):
    """{key: (free, fixed value, label)} of a printed parameter table"""
    out, dup = {}, []
    for _, r in df.iterrows():
        if r.get("dummy", False) is True or (r["rel"] == "=~" and r["lhs"] == r["rhs"]):
            continue
        k = semo.Spec.key(r["rel"], r["lhs"], r["rhs"])
        if k in out:
            dup.append(k)
        out[k] = r
    return out, dup


def check_table(cx, spec, df, gen, sample=None, G=1, tag=""):
    T = dict(spec.table())
    for g in range(G):
        sub = df if "group" not in df else df.loc[df["group"] == g]
        R, dup = rows(sub)
        cx.ok("each relation appears once" + tag, not dup, str(dup))
        cx.ok("table holds the stated relations and the documented defaults" + tag, set(R) == set(T),
              dict(missing=[str(k) for k in set(T) - set(R)], extra=[str(k) for k in set(R) - set(T)]))
        byfree = {}
        for k in set(R) & set(T):
            r, v = R[k], T[k]
            isfree = r["free"] != 0
            cx.ok("free parameters are the unfixed ones" + tag, isfree == (v[0] == "free"), (str(k), str(v), dict(r)))
            if v[0] == "fixed":
                cx.close("fixed values" + tag, float(r["fixedval"]), v[1])
            elif v[0] == "sample" and sample is not None:
                C, m = sample[g]
                cx.close("moments of observed predictors are fixed at the sample's" + tag, float(r["fixedval"]),
                         m[k[1]] if k[2] == "1" else C[(k[1], k[2])], 1e-9)
            elif v[0] == "free":
                byfree.setdefault(r["free"], set()).add(k)
        lab = {}
        for k, v in T.items():
            if v[0] == "free":
                lab.setdefault(v[1] if v[1] is not None else k, set()).add(k)
        if set(R) == set(T):
            cx.ok("parameters are tied exactly when they share a label" + tag,
                  {frozenset(s) for s in byfree.values()} == {frozenset(s) for s in lab.values()}, dict(got=str(byfree), want=str(lab)))


@workload("parameter table", quick=120, thorough=1600, shards=4, timeout=240)
def table(cx):
    spec, kind = semo.make(cx.rng, means=True)
    style = int(cx.rng.integers(3))
    order = [int(i) for i in cx.rng.permutation(len(spec.st))]
    txt = spec.text(order=order, style=style)
    sp = semo.Spec([spec.st[i] for i in order], [])
    cx.case((kind, style, len(spec.st), tuple(m for s in sp.st for m, _ in s[2] if m)), formula=txt)
    from pystatsm.pysem2.param_table import ParameterTable
    from pystatsm.pysem2.formula import FormulaParser as F2
    from pystatsm.pysem.formula_parser import FormulaParser as F1
    from pystatsm.pysem.param_table import BaseModel
    for nm, F in (("", F2), (" (first generation)", F1)):
        p = F(txt)
        st = [(l, r, m, x) for l, r, rhs in sp.st for m, x in rhs]
        got = [(r["lhs"], r["rel"], r["mod"] if isinstance(r["mod"], str) else None, r["rhs"]) for _, r in p.param_df.iterrows()]
        cx.ok("every term of the formula is read in order" + nm, got == st, dict(got=str(got), want=str(st)))
        v = p.var_names
        want = dict(all=set(sp.names), nob=set(sp.lat), obs=set(sp.obs), ind=sp.ind, end=sp.endo, exo=sp.exo,
                    lav=sp.lav, lvo=sp.struct, lox=sp.lox, lvx=sp.lvx, enx=sp.enx, reg=sp.endo | sp.exo, onx=set(sp.obs) - sp.lox)
        for k, w in want.items():
            cx.ok("variables are classified by their roles" + nm, set(v[k]) == w, (k, str(v[k]), str(w)))
    pt = ParameterTable(txt)
    check_table(cx, sp, pt.get_table(), 2)
    cx.ok("orders list every variable once", sorted(pt.obs_order.values()) == list(range(len(sp.obs))) and set(pt.obs_order) == set(sp.obs)
          and sorted(pt.lav_order.values()) == list(range(len(sp.lav))) and set(pt.lav_order) == sp.lav, str(pt.lav_order))
    bm = BaseModel(txt)
    check_table(cx, sp, bm.param_df, 1, tag=" (first generation)")
    t = pt.get_table()
    for _, r in t.iterrows():
        if r["rel"] == "~~":
            want = (0, None) if r["lhs"] == r["rhs"] else (None, None)
            cx.ok("only variances are bounded below", (r["lb"] == 0) if want[0] == 0 else (r["lb"] is None or r["lb"] != r["lb"]), dict(r))
    # rows sit where their variables are
    on, ln = pt.obs_order, pt.lav_order
    lim = {0: (on, ln), 1: (ln, ln), 2: (ln, ln), 3: (on, on)}
    for _, r in t.iterrows():
        k = r["mat"]
        if k < 4:
            a, b = (r["rhs"], r["lhs"]) if r["rel"] == "=~" else (r["lhs"], r["rhs"])
            i, j = lim[k][0][a], lim[k][1][b]
            if k in (2, 3) and i < j:
                i, j = j, i
            cx.ok("matrix positions follow the variable names", (r["r"], r["c"]) == (i, j), dict(r))
        else:
            cx.ok("matrix positions follow the variable names", r["c"] == (on if k == 4 else ln)[r["lhs"]], dict(r))


@workload("same model however written", quick=40, thorough=400, shards=4, timeout=300)
def rewrite(cx):
    rng = cx.rng
    gen = 2 if cx.it % 2 else 1
    spec, kind = semo.make(rng, means=True)
    G = int(rng.choice([1, 1, 2]))
    shared = [bool(rng.random() < .6) for _ in range(6)] if G > 1 else [True] * 6
    df = data(cx, spec, G)
    order = [int(i) for i in rng.permutation(len(spec.st))]
    sp = semo.Spec([spec.st[i] for i in order], [])
    if [f for f in spec.lat] and spec.table() != sp.table():
        cx.skip("label and marker depend on the order")
    orc = semo.Model(sp, df, "grp" if G > 1 else None, shared)
    v = semo.draw(rng, sp, G, shared)
    extra = df.copy()
    extra.insert(0, "unused", rng.normal(size=len(df)))
    extra = extra[[str(c) for c in rng.permutation(extra.columns)]]
    cx.case((gen, kind, G, len(sp.st)), formula=sp.text())
    t0 = sp.text()
    for nm, s, d, style in (("as generated", spec, df, 0), ("statements reordered", sp, df, 0), ("other spacing and comments", sp, df, 1 + cx.it % 2),
                            ("columns permuted and an unused column", sp, extra, 0)):
        d0 = d.copy()
        m = build(cx, gen, s, d, G, shared, style)
        names = [sp.canon(x) for x in m.theta_names]
        cx.ok("same free parameters: " + nm, set(names) == set(v) and len(names) == len(v), str(set(names) ^ set(v)))
        if set(names) != set(v):
            continue
        th = np.array([v[c] for c in names])
        if not all(np.linalg.eigvalsh(S).min() > .05 for S, _ in orc.moments(list(m.theta_names), th)):
            cx.skip("inadmissible draw")
        P = perm(m, orc)
        Sg, mu = m.implied_cov_mean(th)
        ref = orc.moments(list(m.theta_names), th)
        for g in range(G):
            cx.closen("same implied moments: " + nm, np.r_[Sg[g].ravel(), mu[g]], np.r_[ref[g][0][np.ix_(P, P)].ravel(), ref[g][1][P]], 1e-9)
        f = m.fit_func if gen == 2 else m.func
        cx.close("same objective: " + nm, f(th), orc.f(list(m.theta_names), th), 1e-8)
        cx.close("same loglikelihood: " + nm, m.loglike(th), sum(a.sum() for a in orc.nll_obs(list(m.theta_names), th)), 1e-9)
        tab = m.param_df
        check_table(cx, s, tab, gen, sample=orc.ss, G=G, tag=" (with data)")
        # round trips
        free = m.transform_theta_to_free(th)
        cx.ok("parameters survive expansion and reduction", np.array_equal(m.transform_free_to_theta(free), th), "")
        for g in range(G):
            gf = np.asarray(m.transform_free_to_group_free(free, g))
            par = m.group_free_to_par(gf, g)
            mats = m.par_to_model_mats(par) if gen == 2 else m.par_to_model_mats(par, g)
            tl = lambda M: np.concatenate([M[j:, j] for j in range(len(M))]) if len(M) else np.zeros(0)
            L, B, F, Ps, a, b = mats
            back = np.r_[L.ravel("F"), B.ravel("F"), tl(F), tl(Ps), a.ravel(), b.ravel()]
            cx.ok("matrices hold the parameter vector", np.array_equal(back, par), "")
            ix = m.indexer.flat_indices
            cx.ok("free entries of the parameter vector", np.array_equal(par[ix], gf) and len(set(ix)) == len(ix), "")


@workload("options of the default parameters", quick=60, thorough=600, shards=2, timeout=240)
def options(cx):
    from pystatsm.pysem2.param_table import ParameterTable
    rng = cx.rng
    spec, kind = semo.make(rng, mods=False)
    if not spec.lat and kind != "path":
        cx.skip("no latent variable")
    opt = str(rng.choice(["fix_lv_var", "fix_first", "one marker", "lvx_cov", "y_cov", "fix_lv_mean"]))
    cx.case((kind, opt), formula=spec.text())
    T = dict(spec.table())
    if opt == "fix_lv_var":
        kw = dict(fix_lv_var=True, fix_first=False)
        for f in spec.lat:
            T[("~~", f, f)] = ("fixed", 1.0)
            T[[k for k in T if k[:2] == ("=~", f)][0]] = ("free", None)
    elif opt == "fix_first":
        kw = dict(fix_first=False)
        for f in spec.lat:
            T[[k for k in T if k[:2] == ("=~", f)][0]] = ("free", None)
    elif opt == "one marker":
        if not spec.lat:
            cx.skip("no latent variable")
        kw = dict(fix_first={spec.lat[0]: False})
        T[[k for k in T if k[:2] == ("=~", spec.lat[0])][0]] = ("free", None)
    elif opt == "lvx_cov":
        kw = dict(lvx_cov=False)
        T = {k: v for k, v in T.items() if not (k[0] == "~~" and k[1] != k[2] and k[1] in spec.lvx and k[2] in spec.lvx)}
    elif opt == "y_cov":
        kw = dict(y_cov=False)
        T = {k: v for k, v in T.items() if not (k[0] == "~~" and k[1] != k[2] and k[1] in spec.enx and k[2] in spec.enx)}
    else:
        kw = dict(fix_lv_mean=False)
        for f in spec.lat:
            T[("~", f, "1")] = ("free", None)
    sp = semo.Spec(spec.st, [])
    sp.table = lambda: T
    check_table(cx, sp, ParameterTable(spec.text(), model_builder_kws=kw).get_table(), 2, tag=": " + opt)
    # reordering of the variables keeps the table
    pt = ParameterTable(spec.text())
    oo = [str(v) for v in rng.permutation(spec.obs)]
    lo = [str(v) for v in rng.permutation(sorted(spec.lav))]
    pt.reorder_table(obs_order=oo, lav_order=lo)
    check_table(cx, spec, pt.get_table(), 2, tag=": reordered")
    t = pt.get_table()
    for _, r in t.iterrows():
        if r["mat"] in (0, 1):
            a, b = (r["rhs"], r["lhs"]) if r["rel"] == "=~" else (r["lhs"], r["rhs"])
            cx.ok("reordered positions follow the requested order", (r["r"], r["c"]) == ((oo if r["mat"] == 0 else lo).index(a), lo.index(b)), dict(r))
    cx.ok("requested orders are kept", pt.sorted_obs_names == oo and pt.sorted_lav_names == lo, "")


@workload("labels on a marker", quick=30, thorough=200, timeout=200)
def marker(cx):
    """equal loadings with the marker among them, labels used once, one label across matrices"""
    rng = cx.rng
    k = int(rng.integers(3))
    st = [("f", "=~", [("a", "x1"), ("a", "x2"), (None if k else "a", "x3"), (None, "x4")]),
          ("g", "=~", [(None, "x5"), ("c" if k == 2 else None, "x6"), (None, "x7")])]
    if k == 1:
        st.append(("g", "~", [("c", "f")]))
    if k == 2:
        st.append(("g", "~", [("c", "f")]))
    sp = semo.Spec(st, [])
    df = data(cx, sp, 1)
    cx.case((k,), formula=sp.text())
    for gen in (1, 2):
        m = build(cx, gen, sp, df, 1, [True] * 6)
        orc = semo.Model(sp, df)
        names = [sp.canon(x) for x in m.theta_names]
        cx.ok("free parameters with a labelled marker", set(names) == set(orc.exp), str(set(names) ^ set(orc.exp)))
        if set(names) == set(orc.exp):
            v = semo.draw(rng, sp, 1)
            th = np.array([v[c] for c in names])
            P = perm(m, orc)
            cx.closen("implied covariance with a labelled marker", m.implied_cov_mean(th)[0][0], orc.moments(list(m.theta_names), th)[0][0][np.ix_(P, P)], 1e-9)


@workload("index maps", quick=200, thorough=3000, shards=2, timeout=120)
def maps(cx):
    """free-parameter index arrays of random patterns of blocks"""
    from pystatsm.pysem2 import indexers as I2
    from pystatsm.pysem import model_mats as I1
    rng = cx.rng
    p, q = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    shapes = [(p, q), (q, q), (q, q), (p, p), (1, p), (1, q)]
    sym = [False, False, True, True, False, False]
    vals, nxt, A = {}, 1, []
    for s, y in zip(shapes, sym):
        M = np.zeros(s)
        for c in range(s[1]):
            for r in range(c if y else 0, s[0]):
                if rng.random() < .5:
                    if rng.random() < .3 and nxt > 1:
                        M[r, c] = rng.integers(1, nxt)
                    else:
                        M[r, c] = nxt
                        nxt += 1
        A.append(M)
    cx.case((p, q, int(sum((M != 0).sum() for M in A))))
    flat, off, blk, rc = [], 0, [], []
    for b, (M, y) in enumerate(zip(A, sym)):
        pos = [(r, c) for c in range(M.shape[1]) for r in range(c if y else 0, M.shape[0])]
        for k, (r, c) in enumerate(pos):
            if M[r, c] != 0:
                flat.append(off + k); blk.append(b); rc.append((r, c))
        off += len(pos)
    for nm, F, B in (("", I2.FlattenedArray, I2.BlockFlattenedArrays), (" (first generation)", I1.FlattenedIndicatorIndices, I1.BlockFlattenedIndicatorIndices)):
        try:
            bl = B([F(M.copy(), symmetric=y) for M, y in zip(A, sym)])
        except Exception as e:
            if not flat:
                cx.skip("no free entry")
            raise
        if not flat:
            cx.skip("no free entry")
        cx.ok("flat positions of the free entries" + nm, list(bl.flat_indices) == flat, "")
        cx.ok("block of each free entry" + nm, list(bl.block_indices) == blk, "")
        cx.ok("row and column of each free entry" + nm, list(zip(bl.row_indices, bl.col_indices)) == rc, "")
        cx.ok("slices cover the parameter vector" + nm, [(s.start, s.stop) for s in bl.slices][0][0] == 0 and bl.slices[-1].stop == off, "")
        bl.create_derivative_arrays([(0, 0), (1, 0), (2, 0), (1, 1), (2, 1), (5, 0), (5, 1)])
        for k, (b, (r, c)) in enumerate(zip(blk, rc)):
            E = np.zeros(bl.dA.shape[1:])
            E[r, c] = 1
            if sym[b]:
                E[c, r] = 1
            cx.ok("indicator of each free entry" + nm, np.array_equal(bl.dA[k], E), (k, b, r, c))
        ci = bl.colex_descending_inds
        ty = {(0, 0): 1, (1, 0): 2, (2, 0): 3, (1, 1): 4, (2, 1): 5, (5, 0): 6, (5, 1): 7}
        cx.ok("kind of each pair of free entries" + nm, [ty.get((blk[i], blk[j]), 0) for i, j in ci] == list(bl.block_pair_types), "")
        cx.ok("pairs listed once" + nm, len({tuple(x) for x in ci}) == len(flat) * (len(flat) + 1) // 2 == len(ci) and all(i >= j for i, j in ci), "")
    from pystatsm.utilities.indexing_utils import unique
    lab = rng.integers(0, 6, int(rng.integers(1, 20)))
    if rng.random() < .5:
        lab = np.array(list("qwerty"))[lab]
    u, inv, first = unique(lab.copy())
    seen = list(dict.fromkeys(lab.tolist()))
    cx.ok("distinct labels in order of appearance", list(u) == seen and np.array_equal(u[inv], lab) and [lab.tolist().index(s) for s in seen] == list(first), "")
