"""C02: memory safety of the native code, observed by sanitizers.

Workers run on extensions rebuilt with ASan+UBSan; a report ends the worker, which
run.py records as a violation of monitor 'process survives'.  Values are not judged here."""
import glob, os, re, subprocess, sys
import numpy as np, scipy.sparse as sps
from vlib import mon
from vlib.mon import workload, WORKLOADS, Skip

_saved = dict(WORKLOADS); WORKLOADS.clear()
from checks import c01
_c01 = dict(WORKLOADS); WORKLOADS.clear(); WORKLOADS.update(_saved)
from pystatsm.utilities import python_wrappers as pw
from pystatsm.utilities import cython_wrappers as cw
from pystatsm.utilities import ordered_indices as oi


class Quiet(mon.Cx):
    """Runs a value-checking workload for its executions only."""
    def ok(self, m, c, d=""): return True
    def close(self, *a, **k): return True


def quiet(cx, fn, *a):
    q = Quiet(cx.seed, cx.wname, cx.it, cx.tier)
    q.rng = cx.rng
    try:
        fn(q, *a)
    except Skip:
        pass
    except (IndexError, ValueError, TypeError):
        cx.note("rejected by the wrapper")
    cx.events["sanitized execution survived"] += 1
    for c in q.cases:
        cx.cases.append(c)


CALLS = {}


def _count():
    """Count native entries so the evidence shows what the sanitizer watched."""
    for n in dir(cw):
        f = getattr(cw, n)
        if callable(f) and n.endswith("_wrapper") and getattr(pw, n, None) is f:
            def g(*a, __f=f, __n=n, **k):
                CALLS[__n] = CALLS.get(__n, 0) + 1
                return __f(*a, **k)
            setattr(pw, n, g)


_count()


def report(cx, before):
    for k, v in CALLS.items():
        d = v - before.get(k, 0)
        if d: cx.note("native calls " + k, d)


for _n, _w in _c01.items():
    def _mk(w):
        def run(cx):
            b = dict(CALLS); quiet(cx, w.fn); report(cx, b)
        return run
    WORKLOADS[_n] = mon.W(_mk(_w), _n, 200, 6000, 1, 600)

PAD = 16


def arena(n, dt):
    """A buffer of exactly n elements inside a canary-filled arena."""
    a = np.full(n + 2 * PAD, 0x5A5A5A5A if dt == np.int32 else -1.2345e77, dtype=dt)
    return a, a[PAD:PAD + n]


def intact(cx, name, *ar):
    for a in ar:
        c = 0x5A5A5A5A if a.dtype == np.int32 else -1.2345e77
        cx.ok("no write outside " + name, np.all(a[:PAD] == c) and np.all(a[-PAD:] == c))


@workload("canaries around output buffers", quick=200, thorough=6000)
def canary(cx):
    r = cx.rng; b0 = dict(CALLS); a, b, c, d = c01.dims(r, 4); A, _ = c01.rsparse(r, a, b); B, _ = c01.rsparse(r, c, d)
    def out(nz, nc):
        X, x = arena(nz, float); I, i = arena(nz, np.int32); P, p = arena(nc + 1, np.int32); p[:] = 0
        return (X, I, P), (x, i, p)
    ar, o = out(A.nnz * B.nnz, b * d); pw.sparse_kron(A, B, out=o); intact(cx, "sparse kron result", *ar)
    Df = np.asfortranarray(c01.vals(r, a * b).reshape(a, b))
    ar, o = out(a * b * B.nnz, b * d); pw.ds_kron(Df, B, out=o); pw.ds_kron_inplace(Df, B, o[0]); intact(cx, "dense x sparse result", *ar)
    ar, o = out(a * b * B.nnz, b * d); pw.dense_sparse_kron(Df, B, out=o); intact(cx, "dense x sparse result", *ar)
    De = np.asfortranarray(c01.vals(r, c * d).reshape(c, d))
    ar, o = out(c * d * A.nnz, b * d); pw.sparse_dense_kron(A, De, out=o); pw.sparse_dense_kron_inplace(A, De, o[0]); intact(cx, "sparse x dense result", *ar)
    n, k = int(r.integers(1, 20)), int(r.integers(1, 9)); x = c01.vals(r, n)
    Z, z = arena(n * k, float); pw.tile_1d(x, k, out=z); pw.repeat_1d(x, k, out=z); intact(cx, "tiled vector", Z)
    Z, z = arena(a * c, float); P, Q = c01.vals(r, a * b).reshape(a, b), c01.vals(r, b * c).reshape(b, c)
    pw.naive_matmul_inplace(P, Q, z.reshape(a, c)); pw.naive_matmul_inplace2(P, Q, z.reshape(a, c)); intact(cx, "dense product", Z)
    ng, nv = int(r.integers(1, 5)), int(r.integers(1, 5)); L, _ = c01.rsparse(r, ng * nv, int(r.integers(1, 7))); Z, z = arena(nv * nv, float)
    Lr = L.tocsr(); Lr.sort_indices(); pw.block_diag_self_dot(Lr, ng, nv, out=z.reshape(nv, nv)); intact(cx, "block product", Z)
    # in-place sum / product: result arrays embedded in arenas
    E, _ = c01.rsparse(r, a, b); M = c01._pat(A) | c01._pat(E); C = c01.from_mask(r, M)
    (X, I, P_), (x, i, p) = out(C.nnz, b); x[:] = C.data; i[:] = C.indices; p[:] = C.indptr
    Cv = sps.csc_array((x, i, p), shape=(a, b), copy=False)
    if np.shares_memory(Cv.data, x): pw.cs_add_inplace(A, E, Cv); intact(cx, "sum result", X, I, P_)
    E, _ = c01.rsparse(r, b, c); M = (c01._pat(A).astype(int) @ c01._pat(E).astype(int)) > 0
    if M.any():
        C = c01.from_mask(r, M); (X, I, P_), (x, i, p) = out(C.nnz, c); x[:] = C.data; i[:] = C.indices; p[:] = C.indptr
        Cv = sps.csc_array((x, i, p), shape=(a, c), copy=False)
        if np.shares_memory(Cv.data, x): pw.cs_matmul_inplace(A, E, Cv); intact(cx, "product result", X, I, P_)
    cx.case(["canary", a, b, c, d, ng, nv]); report(cx, b0)


@workload("degenerate operands", quick=60, thorough=1000)
def degen(cx):
    """Empty or mismatched operands must be refused or handled, never corrupt memory."""
    r = cx.rng; b0 = dict(CALLS); a, b = int(r.integers(1, 6)), int(r.integers(1, 6))
    Z = sps.csc_array((np.zeros(0), np.zeros(0, np.int32), np.zeros(b + 1, np.int32)), shape=(a, b)); A, _ = c01.rsparse(r, a, b)
    z = np.zeros(0)
    fs = [lambda: pw.sparse_kron(Z, A), lambda: pw.sparse_kron(A, Z), lambda: pw.cs_add_inplace(Z, A, A.copy()), lambda: pw.ds_kron(np.zeros((2, 2), order="F"), Z),
          lambda: pw.id_sp_kron(3, Z), lambda: pw.id_sp_kron(0, A), lambda: pw.tile_1d(z, 3), lambda: pw.repeat_1d(z, 3), lambda: pw.tile_1d(np.ones(3), 0),
          lambda: pw.coo_to_csc(np.zeros(0, int), np.zeros(0, int), z, (a, b)), lambda: pw.sparse_dot(Z[:, [0]], A[:, [0]]),
          lambda: pw.ds_kron(np.ones((2, 3)), A), lambda: pw.sparse_dense_kron(A, np.ones((2, 3))), lambda: pw.naive_matmul_inplace(np.ones((0, 2)), np.ones((2, 2)))]
    for f in fs:
        try: f()
        except (IndexError, ValueError, TypeError): cx.note("rejected by the wrapper")
        cx.events["sanitized execution survived"] += 1
    cx.case(["degenerate", a, b]); report(cx, b0)


@workload("index enumeration", quick=40, thorough=600)
def enum(cx):
    r = cx.rng; k = int(r.integers(1, 5)); sh = tuple(int(v) for v in r.integers(0 if r.random() < .2 else 1, 5, size=k))
    oi.ascending_indices(sh); oi.descending_indices(sh)
    for a in (True, False):
        for b in (True, False):
            for c in (True, False):
                oi.generate_indices(sh, a, b, c)
    cx.events["sanitized execution survived"] += 10; cx.case(["enum", sh])


def lmm_data(r, n=None):
    import pandas as pd
    n = int(r.integers(30, 90)) if n is None else n
    df = pd.DataFrame(dict(x1=r.normal(size=n), x2=r.normal(size=n), y=r.normal(size=n)))
    df["g1"] = r.integers(0, int(r.integers(3, 9)), n); df["g2"] = r.integers(0, int(r.integers(2, 7)), n)
    if r.random() < .4: df.loc[r.choice(n, n // 3, replace=False), "x1"] = 0.0
    df["y"] = df.y + df.groupby("g1").x2.transform("mean") * 3 + df.x1
    return df


FORMS = ["y ~ 1 + x1 + (1|g1)", "y ~ 1 + x1 + (1+x1|g1)", "y ~ x1 + (1|g1) + (1|g2)", "y ~ x1 + (1+x1+x2|g1) + (1|g2)", "y ~ 1 + (1+x1|g1) + (1+x2|g2)"]


@workload("mixed-model evaluations", quick=16, thorough=160, shards=4)
def lmm(cx):
    from pystatsm.pylmm.lmm import LMM
    r = cx.rng; b0 = dict(CALLS); f = FORMS[cx.it % len(FORMS)]; df = lmm_data(r)
    m = LMM(f, df)
    for _ in range(3):
        th = np.asarray(m.theta, float).copy(); th = th + 0.1 * r.random(th.shape) * (th > 0)
        for fn in ("loglike", "gradient", "hessian"):
            try: getattr(m, fn)(th)
            except Exception as e: cx.note("evaluation raised " + type(e).__name__)
            cx.events["sanitized execution survived"] += 1
    if cx.it % 4 == 0:
        try: m.fit()
        except Exception as e: cx.note("fit raised " + type(e).__name__)
        cx.events["sanitized execution survived"] += 1
    cx.case(["lmm", f, len(df), df.g1.nunique(), df.g2.nunique()]); report(cx, b0)


@workload("blocked mixed-model evaluations", quick=16, thorough=160, shards=4)
def lmm2(cx):
    from pystatsm.pylmm.re_mod import LMM2
    r = cx.rng; b0 = dict(CALLS); f = FORMS[cx.it % len(FORMS)]; df = lmm_data(r)
    kw = {}
    if r.random() < .4:
        k = df.g1.nunique(); Q = r.normal(size=(k, k)); kw["a_covs"] = {"g1": Q @ Q.T / k + np.eye(k)} if r.random() < .5 else None
    try:
        m = LMM2(f, df) if not kw.get("a_covs") else LMM2(f, df, **kw)
    except TypeError:
        m = LMM2(f, df)
    th0 = np.asarray(m.mme.re_mod.theta if hasattr(m, "mme") and hasattr(m.mme.re_mod, "theta") else m.theta, float)
    for _ in range(3):
        th = th0 + 0.1 * r.random(th0.shape) * (th0 > 0)
        for o in (m, getattr(m, "mme", None)):
            for fn in ("loglike", "_loglike", "gradient", "_gradient", "hessian"):
                g = getattr(o, fn, None)
                if g is None: continue
                try: g(th)
                except Exception as e: cx.note(f"{fn} raised {type(e).__name__}")
                cx.events["sanitized execution survived"] += 1
    cx.case(["lmm2", f, len(df), sorted(kw)]); report(cx, b0)


DRV = {}


@workload("native kernels under MemorySanitizer", quick=2, thorough=8)
def msan(cx):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); src = "/repo/pystatsm/utilities/src"
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS")}
    san = "memory,undefined" if cx.it % 2 == 0 else "address,undefined"
    scr = os.environ["VERIF_SCRATCH"]; exe = os.path.join(scr, f"drv{cx.it % 2}")
    if exe not in DRV:
        srcs = [os.path.join("/repo", x) for x in re.findall(r'"(pystatsm/utilities/src/[^"]*\.c)"', open("/repo/setup.py").read())]
        p = subprocess.run(["clang", "-w", "-g", "-O1", "-fsanitize=" + san, "-fno-sanitize-recover=all", "-I" + src, f"-I{here}/native/stub",
                            f"{here}/native/driver.c", *srcs, "-o", exe], capture_output=True, text=True, env=env, timeout=300)
        DRV[exe] = p.returncode == 0
        if p.returncode: cx.note("driver does not compile against these sources: " + p.stderr[-200:])
    if not DRV[exe]:
        cx.events["driver skipped"] += 1; return
    env.update(MSAN_OPTIONS="exitcode=77", UBSAN_OPTIONS="print_stacktrace=1", ASAN_OPTIONS="detect_leaks=1:exitcode=77")
    n = 20000 if not cx.thorough else 400000
    p = subprocess.run([exe, str(cx.seed * 100 + cx.it), str(n)], capture_output=True, text=True, env=env, timeout=3000)
    cx.ok("sanitized native driver is quiet", p.returncode == 0, f"{san}: exit {p.returncode}: {p.stderr[:500]}")
    m = re.search(r"calls (\d+)", p.stdout)
    if m: cx.note("native driver calls", int(m.group(1)))
    cx.case(["driver", san, cx.it])
