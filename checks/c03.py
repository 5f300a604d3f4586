"""C03: half-vectorisation, structured matrices and index maps against loop definitions."""
import itertools
import numpy as np, scipy.sparse as sps
from vlib.mon import workload
from pystatsm.utilities import special_mats as sm, linalg_operations as lo, indexing_utils as iu
from pystatsm.utilities import ordered_indices as oi

D = lambda M: M.toarray() if sps.issparse(M) else np.asarray(M)


def vec(A): return np.array([A[i, j] for j in range(A.shape[1]) for i in range(A.shape[0])])
def vech(A): return np.array([A[i, j] for j in range(A.shape[1]) for i in range(j, A.shape[0])])
def vecl(A): return np.array([A[i, j] for j in range(A.shape[1]) for i in range(j + 1, A.shape[0])])


def layout(r, A):
    k = r.integers(4)
    if k == 0: return np.ascontiguousarray(A)
    if k == 1: return np.asfortranarray(A)
    B = np.zeros((A.shape[0] * 2, A.shape[1] * 2)); B[::2, ::2] = A
    return B[::2, ::2] if k == 2 else np.ascontiguousarray(A.T).T


def num(r, *shape):
    A = r.normal(size=shape)
    if r.random() < .3: A = A * 10.0 ** r.integers(-8, 9, size=shape)
    if r.random() < .2: A = np.round(A)
    return A


@workload("vectorisation", quick=60, thorough=400, shards=2)
def vectorisation(cx):
    r = cx.rng; n = 1 + cx.it % 14; m = int(r.integers(1, 9)); A = num(r, n, n); S = A + A.T; cx.case([n])
    X = layout(r, A); k = A.copy()
    for nm, f, w in (("vech", lo.vech, vech), ("vech", lo._vech, vech), ("vech", lo._vech_nb, vech), ("vecl", lo.vecl, vecl), ("vecl", lo._vecl, vecl), ("vecl", lo.lower_half_vec, vecl), ("vec", lo.vec, vec), ("vec", lo._vec, vec)):
        if nm == "vecl" and n == 1 and f is lo.vecl: pass
        cx.close(nm, f(X), w(A), 0, 0)
    v = vech(S)
    for f in (lo.invech, lo._invech): cx.close("inverse half-vectorisation", f(v.copy()), S, 0, 0)
    cx.close("inverse half-vectorisation (triangular)", lo.invech_chol(v.copy()), np.tril(S), 0, 0)
    C = S.copy(); np.fill_diagonal(C, 1.0); cl = vecl(C)
    if n > 1:
        for f in (lo.invecl, lo._invecl): cx.close("inverse strict half-vectorisation", f(cl.copy()), C, 0, 0)
        cx.close("inverse strict half-vectorisation (triangular)", lo.inv_lower_half_vec(cl.copy()), np.tril(C, -1), 0, 0)
    B = num(r, n, m); cx.close("invec", lo.invec(vec(B), n, m), B, 0, 0); cx.close("invec", lo._invec(vec(B), n, m), B, 0, 0); cx.close("vec", lo.vec(layout(r, B)), vec(B), 0, 0)
    T = num(r, 3, 2, n, n); want = np.array([[vech(T[i, j]) for j in range(2)] for i in range(3)])
    cx.close("stacked vech", lo._vech(T), want, 0, 0); W = lo._invech(want)
    for i, j in itertools.product(range(3), range(2)):
        cx.close("stacked inverse vech", W[i, j], np.tril(T[i, j]) + np.tril(T[i, j], -1).T, 0, 0)
        cx.close("stacked vec", lo._vec(T)[i, j], vec(T[i, j]), 0, 0); cx.close("stacked invec", lo._invec(lo._vec(T), n, n)[i, j], T[i, j], 0, 0)
    cx.close("masks", vec(A)[lo._vec_ndg_mask(n)], vec(A)[vec(np.eye(n)) == 0], 0, 0); cx.close("masks", lo._vec_ndg(A), vec(A)[vec(np.eye(n)) == 0], 0, 0)
    for k_ in (-1, 0): cx.close("masks", vec(A)[lo._vec_tril_mask(n, k_)], vec(A)[vec(np.tril(np.ones((n, n)), k_)) == 1], 0, 0)
    cx.ok("sizes", lo.mat_size_to_hv_size(n) == n * (n + 1) // 2 and lo.hv_size_to_mat_size(n * (n + 1) // 2) == n and lo.mat_size_to_lhv_size(n) == n * (n - 1) // 2)
    if n > 1: cx.ok("sizes", lo.lhv_size_to_mat_size(n * (n - 1) // 2) == n)
    ar = np.arange(n * n).reshape(n, n)
    i, j = lo.hv_indices((n, n)); cx.close("index parts", ar[i, j], vech(ar), 0, 0); i, j = lo.lhv_indices((n, n)); cx.close("index parts", ar[i, j], vecl(ar), 0, 0)
    blocks = [num(r, *r.integers(1, 4, 2)) for _ in range(3)]
    G = np.zeros(np.sum([b.shape for b in blocks], axis=0)); a = np.zeros(2, int)
    for b in blocks: G[a[0]:a[0] + b.shape[0], a[1]:a[1] + b.shape[1]] = b; a += b.shape
    cx.close("block diagonal", lo.gb_diag(*blocks), G, 0, 0)
    cx.ok("operand unchanged", np.array_equal(A, k))


@workload("structured matrices", quick=64, thorough=400, shards=4)
def structured(cx):
    r = cx.rng; n = 1 + cx.it % 8; m = int(r.integers(1, 7)); cx.case([n, m]); p = n * (n + 1) // 2
    A = num(r, n, n); S = A + A.T; B = num(r, n, m); L = np.tril(A)
    E = lambda nm, got, want: cx.closen(nm, got, want, 1e-13, 0)
    for K in (D(sm.kmat(n, m)), D(sm.comm_mat(n, m)), D(sm.CommutationMatrix(n, m).K)):
        E("commutation: K vec X = vec X'", K @ vec(B), vec(B.T)); cx.close("commutation is a permutation", K @ K.T, np.eye(n * m), 0, 0)
    for M in (D(sm.lmat(n)), D(sm.elim_mat(n))):
        E("elimination: L vec X = vech X", M @ vec(A), vech(A)); cx.ok("elimination shape", M.shape == (p, n * n))
    Dm = D(sm.dmat(n)); E("duplication: D vech S = vec S", Dm @ vech(S), vec(S)); E("duplication + elimination", D(sm.lmat(n)) @ Dm, np.eye(p))
    i, j = iu.duplication_matrix_indices(n); Q = np.zeros((n * n, p)); Q[i, j] = 1; E("duplication indices", Q, Dm)
    i, j = iu.elimination_matrix_indices(n); Q = np.zeros((p, n * n)); Q[i, j] = 1; E("elimination indices", Q, D(sm.lmat(n)))
    i, j = iu.commutation_matrix_indices(n, m); Q = np.zeros((n * m, n * m)); Q[i, j] = 1; E("commutation indices", Q, D(sm.kmat(n, m)))
    E("pseudo-inverse of duplication", D(sm.dpmat(n)), np.linalg.solve(Dm.T @ Dm, Dm.T))
    E("symmetriser", D(sm.nmat(n)) @ vec(A), vec(A + A.T))
    E("difference operator", np.asarray(sm.difference_mat(n + 3, 2)) @ np.arange(n + 3.0) ** 2, np.full(n + 1, 2.0))
    q, rr = int(r.integers(1, 5)), int(r.integers(1, 5)); C = num(r, q, rr)
    E("vec of a Kronecker product", D(sm.kronvec_mat((n, m), (q, rr))) @ np.kron(vec(B), vec(C)), vec(np.kron(B, C)))
    E("diagonal pattern", D(sm.pattern_mat_d(n)) @ vec(A), vec(np.diag(np.diag(A)))); E("symmetric pattern", D(sm.pattern_mat_s(n)) @ vec(A), vec((A + A.T) / 2))
    E("off-diagonal pattern", D(sm.pattern_mat_c(n)) @ vec(A), vec((A + A.T) / 2 - np.diag(np.diag(A)))); E("diagonal selection", D(sm.pattern_mat_k(n)) @ np.diag(A), vec(np.diag(np.diag(A))))
    # applying an operator equals multiplying by its matrix
    X = num(r, n * m, 3); Y = num(r, n * n, 3); Z = num(r, 3, n * n); S2 = num(r, n * n, n * n); Km = D(sm.kmat(n, m)); Lm = D(sm.lmat(n)); Dp = D(sm.dpmat(n)); co = sm.CommutationMatrix(n, m); el = sm.EliminationMatrix(n); du = sm.DuplicationMatrix(n); dp = sm.DpMatrix(n)
    kx = [a.copy() for a in (X, Y, Z, S2)]
    for g in (sm.apply_kmat1(X, n, m), sm.apply_kmat2(X, n, m), co.apply(X), co.apply_alt(X)): E("apply commutation", g, Km @ X)
    for g in (sm.apply_lmat1(Y), sm.apply_lmat2(Y), el.apply(Y), el.apply_alt(Y), el.app(Y)): E("apply elimination", g, Lm @ Y)
    for g in (sm.apply_lmat_post1(Z), el.apply_post(Z), el.app(Z, pre=False, post=True)): E("apply elimination from the right", g, Z @ Lm.T)
    for g in (sm.apply_lmat_pre_post1(S2), el.app(S2, post=True)): E("apply elimination on both sides", g, Lm @ S2 @ Lm.T)
    for g in (sm.apply_dmat1(Y), sm.apply_dmat2_pre(Y), du.apply(Y), du.apply_pre(Y)): E("apply duplication", g, Dm.T @ Y)
    E("apply duplication", sm.apply_dmat3(S2), Dm.T @ S2)
    for g in (sm.apply_dmat1(Z, n, pre_mult=False, post_mult=True), du.apply(Z, False, True), du.apply_post(Z)): E("apply duplication from the right", g, Z @ Dm)
    for g in (sm.apply_dmat1(S2, n, post_mult=True), du.apply(S2, True, True), sm.apply_dmat2_pre_post(S2), du.apply_pre_post(S2)): E("apply duplication on both sides", g, Dm.T @ S2 @ Dm)
    T3 = num(r, 2, n * n, n * n)
    E("apply duplication to stacks", sm.apply_dmat3(T3, post_mult=True), np.array([Dm.T @ t @ Dm for t in T3])); E("apply duplication to stacks", sm.apply_dmat3(T3), np.array([Dm.T @ t for t in T3]))
    E("apply duplication inverse", dp.apply(Y), Dp @ Y); E("apply duplication inverse", dp.apply(Z, False, True), Z @ Dp.T); E("apply duplication inverse", dp.apply(S2, True, True), Dp @ S2 @ Dp.T)
    cx.ok("operands unchanged", all(np.array_equal(a, b) for a, b in zip(kx, (X, Y, Z, S2))))
    if n <= 5:
        for mk in (sm.make_mats, sm.make_mats2):
            LN, I, Lx, D2 = (D(t) for t in mk(n)); tl = np.zeros((n, n)); tl[np.tril_indices(n)] = 1
            def J(l):
                M = np.zeros((n, n)); k = 0; M = D(Lx).T @ l; M = M.reshape(n, n, order="F"); out = []
                for a in range(n):
                    for b in range(a, n):
                        G = np.zeros((n, n)); G[b, a] = 1; out.append(vech(G @ M.T + M @ G.T))
                return np.array(out).T
            l = r.normal(size=p)
            M = (Lx.T @ l).reshape(n, n, order="F"); cx.closen("Cholesky product: first derivative", LN @ np.kron(M, I) @ Lx.T, J(l), 1e-11, 1e-12)
            want = np.column_stack([vec(J(np.eye(p)[k])) for k in range(p)]); cx.closen("Cholesky product: second derivative", D2, want, 1e-11, 1e-12)


@workload("index maps", quick=48, thorough=300, shards=4)
def index_maps(cx):
    r = cx.rng; n = 1 + cx.it % 12; m = int(r.integers(1, 8)); p, q = (int(x) for x in r.integers(1, 6, 2)); cx.case([n, m, p, q])
    ar = np.arange(n * n).reshape(n, n); hv = vech(ar); hl = vecl(ar)
    i = np.arange(len(hv)); a, b = iu.vech_inds_reverse(i, n); cx.close("half-vector index to (row, column)", ar[a, b], hv, 0, 0); cx.close("(row, column) to half-vector index", iu.vech_inds_forwards(a, b, n), i, 0, 0)
    k = int(r.integers(len(hv))); x, y = iu.vech_inds_reverse(k, n); cx.ok("scalar half-vector index", ar[x, y] == hv[k] and iu.vech_inds_forwards(x, y, n) == k)
    if n > 1:
        i = np.arange(len(hl)); a, b = iu.vecl_inds_reverse(i, n); cx.close("strict half-vector index to (row, column)", ar[a, b], hl, 0, 0); cx.close("(row, column) to strict half-vector index", iu.vecl_inds_forwards(a, b, n), i, 0, 0)
        cx.close("strict lower mask", vec(ar)[iu.vecl_inds(n)], hl, 0, 0)
    A = np.arange(n * m).reshape(n, m); i = np.arange(n * m); a, b = iu.vec_inds_reverse(i, n); cx.close("vector index", A[a, b], vec(A), 0, 0); cx.close("vector index", iu.vec_inds_forwards(a, b, n), i, 0, 0)
    X, Y = r.normal(size=(n, m)), r.normal(size=(p, q)); K = np.kron(X, Y)
    for _ in range(5):
        a, b = int(r.integers(K.shape[0])), int(r.integers(K.shape[1])); s, t = iu.kronecker_indices_forward(a, b, p, q)
        cx.ok("Kronecker indices", K[a, b] == X[s] * Y[t] and iu.kronecker_indices_reverse(*s, *t, p, q) == (a, b))
    N = np.arange(0, 5000); w = np.array([max(k for k in range(int(np.sqrt(2 * v)) + 2) if k * (k + 1) // 2 <= v) for v in N]) if cx.it == 0 else None
    if w is not None: cx.close("largest triangular number", iu.largest_triangular(N), w, 0, 0)
    t = int(r.integers(1, 10 ** 6)); T = t * (t + 1) // 2; cx.ok("largest triangular number", iu.largest_triangular(T) == t and iu.largest_triangular(T - 1) == t - 1)
    for kk in (0, -1, 1):
        if n > 1:
            a, b = iu.tril_indices(n, kk); want = [(i, j) for j in range(n) for i in range(n) if i - j >= -kk]; cx.ok("lower-triangular indices", list(zip(a.tolist(), b.tolist())) == want)
            a, b = iu.tril_indices(n, kk, order="C"); want = [(i, j) for i in range(n) for j in range(n) if i - j >= -kk]; cx.ok("lower-triangular indices", list(zip(a.tolist(), b.tolist())) == want)
            a, b = iu.triu_indices(n, kk); want = [(i, j) for j in range(n) for i in range(n) if j - i >= kk]; cx.ok("upper-triangular indices", list(zip(a.tolist(), b.tolist())) == want)
            a, b = iu.triu_indices(n, kk, order="C"); want = [(i, j) for i in range(n) for j in range(n) if j - i >= kk]; cx.ok("upper-triangular indices", list(zip(a.tolist(), b.tolist())) == want)
            a, b = iu.diag_indices(n, kk); cx.ok("diagonal indices", list(zip(a.tolist(), b.tolist())) == [(i, i + kk) for i in range(n) if 0 <= i + kk < n])
    for kk, f in ((0, vech), (-1, vecl)):
        if kk == -1 and n == 1: continue
        for base in (0, 1):
            P = iu.inv_tril_indices(n, kk, indexing=base); cx.close("positions of half-vector entries", f(np.asarray(P)), np.arange(base, base + len(f(P))), 0, 0); cx.ok("position table symmetric", np.array_equal(P, P.T))
    cx.close("diagonal positions in a half-vector", hv[iu.vech_diag_indices(n)], np.diag(ar), 0, 0); cx.ok("diagonal positions in a half-vector", [iu.vech_diag_indices_forward(k, n) for k in range(n)] == list(iu.vech_diag_indices(n)))


@workload("multi-index maps", quick=60, thorough=400, shards=4)
def multi(cx):
    r = cx.rng; d = int(r.integers(1, 5)); shape = tuple(int(x) for x in r.integers(1, 6, d)); cx.case([shape])
    allx = list(itertools.product(*[range(s) for s in shape])); colex = sorted(allx, key=lambda t: t[::-1])
    for k in r.choice(len(allx), min(len(allx), 12), replace=False):
        k = int(k)
        cx.ok("lexicographic position", iu.lex_index_forward(np.array(allx[k]), np.array(shape)) == k); cx.ok("lexicographic multi-index", tuple(int(v) for v in iu.lex_index_reverse(k, np.array(shape))) == allx[k])
        cx.ok("colexicographic position", iu.colex_index_forward(np.array(colex[k]), np.array(shape)) == k); cx.ok("colexicographic multi-index", tuple(int(v) for v in iu.colex_index_reverse(k, np.array(shape))) == colex[k])
    for o, ref in (("F", colex), ("C", allx)): cx.ok("iteration order", list(iu.ndindex(shape, order=o)) == ref)
    asc = [x for x in allx if all(u <= v for u, v in zip(x, x[1:]))]; desc = [x for x in allx if all(u >= v for u, v in zip(x, x[1:]))]; sasc = [x for x in allx if all(u < v for u, v in zip(x, x[1:]))]; sdesc = [x for x in allx if all(u > v for u, v in zip(x, x[1:]))]
    for f in (iu.ascending_indices, oi.ascending_indices, lambda s: list(iu.ascending_indices_generator(s))): cx.ok("ascending enumeration", f(shape) == asc)
    cx.ok("descending enumeration", oi.descending_indices(shape) == desc[::-1])
    for a, s, ref in ((True, False, asc), (True, True, sasc), (False, False, desc), (False, True, sdesc)):
        for ff in (True, False):
            g = oi.generate_indices(shape, ascending=a, first_indices_change_fastest=ff, strict=s); cx.ok("monotone enumeration", sorted(g) == ref and len(set(g)) == len(g)); cx.ok("monotone enumeration order", g == ref or g == sorted(ref, key=lambda t: t[::-1]))
    n, dd = int(r.integers(1, 6)), int(r.integers(1, 5)); cube = (n,) * dd
    A = sorted((x for x in itertools.product(range(n), repeat=dd) if list(x) == sorted(x)), key=lambda t: t[::-1])
    for k, x in enumerate(A):
        cx.ok("simplex position", iu.colex_ascending_indices_forward(np.array(x)) == k and iu.ascending_indices_forward(np.array(x)) == k)
        cx.ok("simplex multi-index", tuple(iu.colex_ascending_indices_reverse(k, cube)) == x and tuple(iu.ascending_indices_reversed(k, dd, n)) == x)
        cx.ok("simplex position (descending)", iu.colex_descending_indices_forward(np.array(x[::-1])) == k and tuple(iu.colex_descending_indices_reverse(k, cube)) == x[::-1])
    L = iu.ascending_indices(cube); arr = r.normal(size=(2, len(L))); T = iu.fill_tensor(arr, cube)
    for x in itertools.product(range(n), repeat=dd): cx.close("symmetric tensor", T[(slice(None),) + x], arr[:, L.index(tuple(sorted(x)))], 0, 0)
    seq = [int(v) for v in r.integers(0, 3, int(r.integers(1, 6)))]; P = [tuple(s) for s in iu.multiset_permutations(list(seq))]; cx.ok("multiset permutations", P == sorted(set(itertools.permutations(seq))))
    for k in range(-1, 8):
        import math
        nn = int(r.integers(0, 20)); cx.ok("binomial coefficient", iu.comb_numba(nn, k) == (math.comb(nn, k) if k >= 0 else 0))


@workload("array matching", quick=40, thorough=200)
def match(cx):
    r = cx.rng; n = int(r.integers(1, 30)); x = r.permutation(50)[:n]; y = r.permutation(50)[: int(r.integers(1, 30))]; cx.case([n, len(y)])
    if r.random() < .3: x, y = np.array([f"k{v:02d}" for v in x]), np.array([f"k{v:02d}" for v in y])
    i = iu.array_match(x, y); cx.ok("matched positions", list(x[i]) == [v for v in y if v in set(x.tolist())])
    mk = iu.array_match(x, y, mask=True); cx.ok("matched positions (masked)", [(None if mm else x[v]) for v, mm in zip(mk.data, np.ma.getmaskarray(mk))] == [v if v in set(x.tolist()) else None for v in y])
    v = r.integers(0, 6, int(r.integers(1, 25)));
    if r.random() < .3: v = np.array([f"s{k}" for k in v])
    u, inv, ind = iu.unique(v); cx.ok("distinct values by first appearance", list(u) == list(dict.fromkeys(v.tolist()))); cx.ok("distinct values: inverse", np.array_equal(u[inv], v)); cx.ok("distinct values: first positions", list(ind) == [v.tolist().index(k) for k in u])
    A = (r.random(tuple(r.integers(1, 5, int(r.integers(1, 4))))) < .5); nz = iu.nonzero(A); ref = sorted((t for t in np.ndindex(A.shape) if A[t]), key=lambda t: t[::-1])
    cx.ok("nonzero positions", [tuple(int(c) for c in t) for t in nz.T] == ref)
