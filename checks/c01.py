"""C01: native sparse kernels against dense definitions, with buffer reuse."""
import numpy as np, scipy.sparse as sps
from vlib.mon import workload
from pystatsm.utilities import python_wrappers as pw


def vals(rng, n, cplx=False):
    kind = rng.integers(4)
    v = rng.normal(size=n)
    if kind == 0:
        v = rng.integers(-3, 4, size=n).astype(float)        # exact zeros and cancellations
    elif kind == 1:
        v = v * 10.0 ** rng.integers(-6, 7, size=n)
    if cplx:
        v = v + 1j * (rng.integers(-3, 4, size=n) if kind == 0 else rng.normal(size=n))
    return v


def rsparse(rng, nr, nc, style=None, cplx=False, fmt="csc"):
    """Random canonical CSC matrix (stored zeros allowed), at least one stored entry."""
    style = rng.choice(["sparse", "dense", "emptycols", "emptyrows", "single", "diag", "lastcol", "half"]) if style is None else style
    M = np.zeros((nr, nc), bool)
    if style == "sparse": M = rng.random((nr, nc)) < 0.2
    elif style == "half": M = rng.random((nr, nc)) < 0.5
    elif style == "dense": M[:] = True
    elif style == "emptycols": M = (rng.random((nr, nc)) < 0.6) & (rng.random(nc) < 0.5)[None]
    elif style == "emptyrows": M = (rng.random((nr, nc)) < 0.6) & (rng.random(nr) < 0.5)[:, None]
    elif style == "diag": M = np.eye(nr, nc, k=int(rng.integers(-1, 2)), dtype=bool)
    elif style == "lastcol": M[:, -1] = True
    if not M.any(): M[rng.integers(nr), rng.integers(nc)] = True
    return from_mask(rng, M, cplx), style


def from_mask(rng, M, cplx=False):
    nr, nc = M.shape
    c, r = np.nonzero(M.T)
    indptr = np.concatenate([[0], np.cumsum(M.sum(0))]).astype(np.int32)
    return sps.csc_array((vals(rng, len(r), cplx), r.astype(np.int32), indptr), shape=(nr, nc))


def dims(rng, k, hi=7):
    d = [int(d) for d in rng.integers(1, hi, size=k)]
    if rng.random() < 0.15:
        d[rng.integers(k)] = int(rng.integers(20, 150))
    return d


def frz(*ms):
    out = []
    for m in ms:
        out.append((m.data.copy(), m.indices.copy(), m.indptr.copy()) if sps.issparse(m) else (np.array(m).copy(),))
    return out


def unchanged(cx, before, *ms):
    for b, a in zip(before, frz(*ms)):
        cx.ok("operands unchanged", all(np.array_equal(x, y, equal_nan=True) for x, y in zip(b, a)))


def canon(cx, C):
    """Structural well-formedness of a compressed column result."""
    ip, ii = C.indptr, C.indices
    cx.ok("compressed column structure valid",
          ip[0] == 0 and np.all(np.diff(ip) >= 0) and ip[-1] <= len(ii) and np.all((ii[:ip[-1]] >= 0) & (ii[:ip[-1]] < C.shape[0])))
    for j in range(C.shape[1]):
        s = ii[ip[j]:ip[j + 1]]
        if len(np.unique(s)) != len(s):
            cx.ok("no duplicate entries", False, f"column {j}: {s}"); break


def poison(C, rng):
    C.data[:] = rng.choice([np.nan, 1e300, -7.0])


TOL = dict(rtol=1e-12, atol=1e-12)


def deq(cx, name, C, D):
    D = np.asarray(D)
    s = float(np.max(np.abs(D))) if D.size else 0.0
    cx.close(name, C, D, rtol=1e-12, atol=1e-13 * s)


@workload("kron sparse x sparse", quick=250, shards=2)
def k_ss(cx):
    r = cx.rng; a, b, c, d = dims(r, 4)
    A, sa = rsparse(r, a, b); B, sb = rsparse(r, c, d); f = frz(A, B)
    C = pw.sparse_kron(A, B); D = np.kron(A.toarray(), B.toarray())
    deq(cx, "sparse kron = dense kron", C, D); canon(cx, C)
    cx.case(["ss", sa, sb, a, b, c, d])
    # fresh buffer handed over in both accepted forms
    buf = (np.full(C.nnz, np.nan), np.full(C.nnz, -1, np.int32), np.zeros(C.shape[1] + 1, np.int32))
    Cx, Ci, Cp = pw.sparse_kron(A, B, out=buf)
    deq(cx, "sparse kron into raw buffers", sps.csc_array((Cx, Ci, Cp), shape=C.shape), D)
    for _ in range(3):                       # reuse the same pattern with new values
        A.data = vals(r, len(A.data)); B.data = vals(r, len(B.data)); poison(C, r); f2 = frz(A, B)
        D = np.kron(A.toarray(), B.toarray())
        R = pw.sparse_kron(A, B, out=C) if r.random() < .4 else pw.sparse_kron_inplace(A, B, C)
        deq(cx, "reused sparse kron buffer", C, D); deq(cx, "returned object is the buffer", R, D)
        unchanged(cx, f2, A, B)


@workload("kron dense x sparse", quick=250, shards=2)
def k_ds(cx):
    r = cx.rng; a, b, c, d = dims(r, 4)
    A = np.asfortranarray(vals(r, a * b).reshape(a, b)); B, sb = rsparse(r, c, d); f = frz(A, B)
    D = np.kron(A, B.toarray())
    C = pw.ds_kron(A, B); deq(cx, "dense x sparse kron", C, D); canon(cx, C)
    A2 = np.ascontiguousarray(A) if r.random() < .5 else A
    C2 = pw.dense_sparse_kron(A2, B); deq(cx, "dense x sparse kron (second form)", C2, D); canon(cx, C2)
    cx.case(["ds", sb, a, b, c, d]); unchanged(cx, f, A, B)
    for _ in range(3):
        A = np.asfortranarray(vals(r, a * b).reshape(a, b)); B.data = vals(r, len(B.data)); f = frz(A, B)
        D = np.kron(A, B.toarray())
        k = r.integers(4)
        poison(C, r); poison(C2, r)
        if k == 0: pw.ds_kron_inplace(A, B, C)
        elif k == 1: pw.ds_kron_inplace(A, B, C.data)
        elif k == 2: pw.ds_kron(A, B, out=C)
        else: pw.ds_kron(A, B, out=(C.data, C.indices, C.indptr))
        deq(cx, "reused dense x sparse buffer", C, D)
        pw.dense_sparse_kron(A, B, out=C2); deq(cx, "reused dense x sparse buffer (second form)", C2, D)
        unchanged(cx, f, A, B)


@workload("kron sparse x dense", quick=250, shards=2)
def k_sd(cx):
    r = cx.rng; a, b, c, d = dims(r, 4)
    A, sa = rsparse(r, a, b); B = np.asfortranarray(vals(r, c * d).reshape(c, d)); f = frz(A, B)
    D = np.kron(A.toarray(), B)
    C = pw.sparse_dense_kron(A, B); deq(cx, "sparse x dense kron", C, D); canon(cx, C)
    cx.case(["sd", sa, a, b, c, d]); unchanged(cx, f, A, B)
    for _ in range(3):
        B = np.asfortranarray(vals(r, c * d).reshape(c, d)); A.data = vals(r, len(A.data)); f = frz(A, B)
        D = np.kron(A.toarray(), B); poison(C, r); k = r.integers(3)
        if k == 0: pw.sparse_dense_kron_inplace(A, B, C)
        elif k == 1: pw.sparse_dense_kron_inplace(A, B, C.data)
        else: pw.sparse_dense_kron(A, B, out=C)
        deq(cx, "reused sparse x dense buffer", C, D); unchanged(cx, f, A, B)


@workload("kron identity x sparse", quick=250, shards=2)
def k_id(cx):
    r = cx.rng; m, c, d = int(r.integers(1, 6)), *dims(r, 2)
    B, sb = rsparse(r, c, d); f = frz(B)
    D = np.kron(np.eye(m), B.toarray()); C = pw.id_sp_kron(m, B)
    deq(cx, "identity x sparse kron", C, D); canon(cx, C); unchanged(cx, f, B)
    cx.case(["id", sb, m, c, d])
    for _ in range(3):
        B.data = vals(r, len(B.data)); poison(C, r); f = frz(B)
        pw.id_sp_kron_inplace(m, B, C); deq(cx, "reused identity kron buffer", C, np.kron(np.eye(m), B.toarray())); unchanged(cx, f, B)


def _add(cx, cplx):
    r = cx.rng; a, b = dims(r, 2, 9)
    A, sa = rsparse(r, a, b, cplx=cplx); B, sb = rsparse(r, a, b, cplx=cplx)
    M = np.zeros((a, b), bool)
    for X in (A, B):
        Y = X.tocoo(); M[Y.row, Y.col] = True
    if r.random() < .5: M |= r.random((a, b)) < .3          # pattern may be a strict superset
    C = from_mask(r, M, cplx); pat = C.indices.copy(), C.indptr.copy()
    fn = pw.cs_add_inplace_complex if cplx else pw.cs_add_inplace
    cx.case(["add", cplx, sa, sb, a, b, int(M.sum())])
    full = C
    for k in range(5):
        A.data = vals(r, len(A.data), cplx); B.data = vals(r, len(B.data), cplx)
        al, be = [(1., 1.), (1., -1.), (2.5, .5), (0., 1.), (-1., 0.)][r.integers(5)]
        if cplx: al, be = complex(al, r.integers(-1, 2)), complex(be, r.integers(-1, 2))
        if r.random() < .3 and A.nnz == B.nnz and np.array_equal(A.indices, B.indices) and np.array_equal(A.indptr, B.indptr):
            B.data = A.data.copy()
        f = frz(A, B)
        if k == 0 and r.random() < .5: R = fn(A, B, C); al = be = 1.0
        elif cplx: R = fn(A, B, C, np.complex128(al), np.complex128(be))
        else: R = fn(A, B, C, al, be)
        D = al * A.toarray() + be * B.toarray()
        deq(cx, "sum into preallocated buffer", C, D); deq(cx, "sum returned", R, D); unchanged(cx, f, A, B)
    return pat


@workload("add real", quick=250, shards=2)
def add_r(cx): _add(cx, False)


@workload("add complex", quick=250, shards=2)
def add_c(cx): _add(cx, True)


def _mul(cx, cplx):
    r = cx.rng; a, b, c = dims(r, 3, 9)
    A, sa = rsparse(r, a, b, cplx=cplx); B, sb = rsparse(r, b, c, cplx=cplx)
    PA = (A.astype(bool).toarray() if False else _pat(A)); PB = _pat(B)
    M = (PA.astype(int) @ PB.astype(int)) > 0
    if not M.any(): cx.skip("empty product")
    C = from_mask(r, M, cplx); fn = pw.cs_matmul_inplace_complex if cplx else pw.cs_matmul_inplace
    cx.case(["mul", cplx, sa, sb, a, b, c, int(M.sum())])
    for _ in range(4):
        A.data = vals(r, len(A.data), cplx); B.data = vals(r, len(B.data), cplx); poison(C, r); f = frz(A, B)
        R = fn(A, B, C); D = A.toarray() @ B.toarray()
        s = float(np.max(np.abs(A.toarray()) @ np.abs(B.toarray())))
        cx.close("product into preallocated buffer", C, D, rtol=1e-11, atol=1e-14 * s)
        cx.close("product returned", R, D, rtol=1e-11, atol=1e-14 * s)
        cx.ok("product pattern is the structural one", np.array_equal(_pat(C), M)); canon(cx, C); unchanged(cx, f, A, B)
        ii = [C.indices[C.indptr[j]:C.indptr[j + 1]] for j in range(c)]
        cx.ok("row indices sorted", all(np.all(np.diff(x) > 0) for x in ii))


def _pat(A):
    M = np.zeros(A.shape, bool)
    for j in range(A.shape[1]):
        M[A.indices[A.indptr[j]:A.indptr[j + 1]], j] = True
    return M


@workload("matmul real", quick=250, shards=2)
def mul_r(cx): _mul(cx, False)


@workload("matmul complex", quick=250, shards=2)
def mul_c(cx): _mul(cx, True)


@workload("triplets to columns", quick=300, shards=2)
def coo(cx):
    r = cx.rng; a, b = dims(r, 2, 10)
    n = int(r.integers(1, 3 * a * b + 2)) if r.random() < .3 else int(r.integers(1, a * b + 1))
    dup = n > a * b or r.random() < .3
    if dup: rows, cols = r.integers(0, a, n), r.integers(0, b, n)
    else:
        k = r.choice(a * b, n, replace=False); rows, cols = k % a, k // a
    x = vals(r, n); dt = r.choice([np.int32, np.int64]); rows, cols = rows.astype(dt), cols.astype(dt)
    f = frz(rows, cols, x); D = np.zeros((a, b)); np.add.at(D, (rows, cols), x)
    C = pw.coo_to_csc(rows, cols, x, (a, b)); deq(cx, "triplet sum", C, D); unchanged(cx, f, rows, cols, x)
    sh, nz, p, i, v = pw.coo_to_csc(rows, cols, x, (a, b), return_array=False)
    cx.ok("triplet parts", sh == (a, b) and nz == n and p[0] == 0 and p[-1] == n and np.all(np.diff(p) >= 0))
    deq(cx, "triplet sum from parts", sps.csc_array((v, i, p), shape=sh), D)
    # stable: within a column triplets keep their input order
    for j in range(b):
        s = np.flatnonzero(cols == j)
        cx.ok("column keeps triplet order", np.array_equal(i[p[j]:p[j + 1]], rows[s]) and np.array_equal(v[p[j]:p[j + 1]], x[s]))
    cx.case(["coo", dup, a, b, n])


@workload("products and traces", quick=250, shards=2)
def dots(cx):
    r = cx.rng; a, b, c = dims(r, 3, 9)
    A = vals(r, a * b).reshape(a, b); B = vals(r, b * c).reshape(b, c); f = frz(A, B)
    D = A @ B; s = float(np.max(np.abs(A) @ np.abs(B)))
    for fn in (pw.naive_matmul_inplace, pw.naive_matmul_inplace2):
        cx.close("dense product", fn(A, B), D, rtol=1e-11, atol=1e-14 * s)
        C = np.full((a, c), 5.0); fn(A, B, C); fn(A, B, C)
        cx.close("dense product into reused buffer", C, D, rtol=1e-11, atol=1e-14 * s)
    unchanged(cx, f, A, B)
    # dot of two sparse vectors
    u, su = rsparse(r, a, 1); v, sv = rsparse(r, a, 1)
    cx.close("sparse dot", pw.sparse_dot(u, v), float(u.toarray().ravel() @ v.toarray().ravel()), rtol=1e-10,
             atol=1e-13 * float(np.abs(u.toarray()).ravel() @ np.abs(v.toarray()).ravel()))
    # trace(B'B C) restricted to C's pattern
    B, sb = rsparse(r, a, b); C, sc = rsparse(r, b, b); f = frz(B, C)
    G = B.toarray().T @ B.toarray(); Ga = np.abs(B.toarray()).T @ np.abs(B.toarray())
    cx.close("pattern trace", pw.sparse_pattern_trace(B, C), float(np.sum(C.toarray() * G)), rtol=1e-10,
             atol=1e-13 * float(np.sum(np.abs(C.toarray()) * Ga)))
    unchanged(cx, f, B, C)
    ng, nv = int(r.integers(1, 6)), int(r.integers(1, 5)); L, sl = rsparse(r, ng * nv, int(r.integers(1, 9)))
    Lr = L.tocsr(); Lr.sort_indices(); Ld = L.toarray().reshape(ng, nv, -1)
    W = np.einsum("gap,gbp->ab", Ld, Ld); Wa = np.einsum("gap,gbp->ab", abs(Ld), abs(Ld))
    o = np.full((nv, nv), 9.)
    cx.close("block self product", pw.block_diag_self_dot(Lr, ng, nv), W, rtol=1e-10, atol=1e-13 * Wa.max())
    for _ in range(2):
        cx.close("block self product into buffer", pw.block_diag_self_dot(Lr, ng, nv, out=o), W, rtol=1e-10, atol=1e-13 * Wa.max())
    cx.close("block self product buffer filled", o, W, rtol=1e-10, atol=1e-13 * Wa.max())
    cx.case(["dots", a, b, c, sb, sc, sl, ng, nv])


@workload("tile and repeat", quick=150)
def tile(cx):
    r = cx.rng; n, k = int(r.integers(1, 30)), int(r.integers(1, 20)); x = vals(r, n); f = frz(x)
    cx.close("tile", pw.tile_1d(x, k), np.tile(x, k), rtol=0, atol=0)
    cx.close("repeat", pw.repeat_1d(x, k), np.repeat(x, k), rtol=0, atol=0)
    z = vals(r, n, True); cx.ok("tile complex", np.array_equal(pw.tile_1d_complex(z, k), np.tile(z, k)))
    o = np.full(n * k, np.nan); o2 = o.copy()
    for _ in range(2):
        pw.tile_1d(x, k, o); pw.repeat_1d(x, k, o2)
    cx.ok("tile/repeat into reused buffer", np.array_equal(o, np.tile(x, k)) and np.array_equal(o2, np.repeat(x, k)))
    unchanged(cx, f, x); cx.case(["tile", n, k])
    a, b = dims(r, 2); D = vals(r, a * b).reshape(a, b)
    sh, nz, p, i, v = pw.fully_dense_to_csc(D); S = sps.csc_array((v, i, p), shape=sh)
    deq(cx, "dense as columns", S, D); T = pw.symbolic_csc_like(S)
    cx.ok("symbolic copy: same pattern, zero values, own storage", np.array_equal(T.indices, S.indices) and np.array_equal(T.indptr, S.indptr)
          and not T.data.any() and not np.shares_memory(T.data, S.data))
    cx.ok("equality test", bool(pw.csc_eq(S, S.copy())))
    if S.data.any() and np.max(np.abs(S.data)) > 1e-3:
        U = S.copy(); U.data = U.data + 1 + np.abs(U.data)
        cx.ok("inequality test", not bool(pw.csc_eq(S, U)))
