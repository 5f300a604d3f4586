"""Monitor context handed to workloads: records events, distinct cases, verdicts."""
import collections, contextlib, json, zlib
import numpy as np

WORKLOADS = {}


class Skip(Exception):
    """The generated input lies outside the property's scope."""


class W:
    def __init__(self, fn, name, quick, thorough, shards, timeout):
        self.fn, self.name, self.quick, self.thorough, self.shards, self.timeout = fn, name, quick, thorough, shards, timeout


def workload(name, quick=20, thorough=None, shards=1, timeout=600):
    def deco(fn):
        assert name not in WORKLOADS, name
        WORKLOADS[name] = W(fn, name, quick, thorough if thorough is not None else 10 * quick, shards, timeout)
        return fn
    return deco


def short(x, n=300):
    if isinstance(x, np.ndarray):
        x = np.array2string(x, precision=6, threshold=24, edgeitems=3)
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


class Cx:
    def __init__(self, seed, wname, it, tier):
        self.seed, self.wname, self.it, self.tier = seed, wname, it, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(wname.encode()), it])
        np.random.seed((seed * 1000003 + zlib.crc32(wname.encode()) + it) % (2**32))
        self.events = collections.Counter()
        self.fails = []
        self.cases = []
        self.notes = collections.Counter()
        self.maxerr = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- case bookkeeping ------------------------------------------------
    def case(self, sig, nontrivial=True, **detail):
        self.cases.append((json.dumps(sig, default=str, sort_keys=True), bool(nontrivial),
                           {k: short(v, 160) for k, v in detail.items()}))

    def note(self, name, k=1):
        self.notes[name] += k

    def skip(self, why=""):
        self.notes["skipped: " + why] += 1
        raise Skip(why)

    # -- verdicts --------------------------------------------------------
    def ok(self, monitor, cond, detail=""):
        self.events[monitor] += 1
        if not bool(np.all(cond)):
            if callable(detail):
                detail = detail()
            self.fails.append((monitor, short(detail, 600)))
            return False
        return True

    def close(self, monitor, got, want, rtol=1e-8, atol=1e-10, detail=""):
        got = _arr(got); want = _arr(want)
        self.events[monitor] += 1
        if want.ndim == 0 and got.ndim: want = np.broadcast_to(want, got.shape)
        if got.dtype == bool: got = got.astype(int)
        if want.dtype == bool: want = want.astype(int)
        if got.dtype.kind in 'UO' or want.dtype.kind in 'UO':
            return self.ok(monitor, got.shape == want.shape and bool(np.all(got == want)), f'{got} != {want}')
        if got.shape != want.shape:
            self.fails.append((monitor, f"shape {got.shape} != {want.shape} {short(detail)}"))
            return False
        if got.size == 0:
            return True
        with np.errstate(all="ignore"):
            both = (got == want)
            err = np.abs(got - want)
            scale = np.abs(want)
            bad = ~(both | (err <= atol + rtol * scale))
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(bad, np.nan_to_num(err, nan=np.inf), -1))), got.shape) if got.ndim else ()
            self.fails.append((monitor, f"got {got[i]!r} want {want[i]!r} at {tuple(map(int,i))} of shape {got.shape}; {short(detail)}"))
            return False
        return True

    def closen(self, monitor, got, want, rtol=1e-7, atol=1e-9, detail=""):
        """Norm-wise comparison: |got-want|_max <= atol + rtol*|want|_max."""
        want = _arr(want)
        s = float(np.max(np.abs(want))) if want.size else 0.0
        if not np.isfinite(s):
            return self.close(monitor, got, want, rtol, atol, detail)
        return self.close(monitor, got, want, 0.0, atol + rtol * s, detail)

    def deriv(self, monitor, got, f, x, rtol=1e-5, atol=1e-7, scale=None, detail="", h=None):
        """`got` must equal the derivative of f at x.  Axes: f's axes, then x's."""
        want, err = nderiv(f, x, scale=scale, h=h)
        got = _arr(got)
        self.events[monitor] += 1
        if got.shape != want.shape:
            self.fails.append((monitor, f"shape {got.shape} != {want.shape} {short(detail)}"))
            return False
        if not want.size:
            return True
        s = np.max(np.abs(want))
        tol = atol + rtol * s + 20 * err
        if not (np.all(np.isfinite(want)) and np.all(np.isfinite(err))) or np.max(err) > 1e-2 * (s + 1e-3):
            self.note("derivative oracle unusable")
            return True
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(bad, np.nan_to_num(np.abs(got - want), nan=np.inf), -1))), want.shape) if want.ndim else ()
            self.fails.append((monitor, f"got {got[i]!r} want {want[i]!r} (oracle err {err[i]:.1e}) at {tuple(map(int,i))} of {want.shape}; {short(detail)}"))
            return False
        return True

    def raises(self, monitor, exc, fn, detail=""):
        try:
            fn()
        except exc:
            self.ok(monitor, True)
        except Exception as e:
            self.ok(monitor, False, f"raised {type(e).__name__}: {e}; {detail}")
        else:
            self.ok(monitor, False, f"did not raise; {detail}")


def _arr(a):
    if hasattr(a, "toarray"):
        a = a.toarray()
    a = np.asarray(a)
    if a.dtype == object:
        a = a.astype(float)
    return a


_C = np.array([-1, 9, -45, 0, 45, -9, 1]) / 60.0
_O = np.arange(-3, 4)


def nderiv(f, x, scale=None, h=None):
    """Sixth-order central differences at two step sizes; error from their spread.
    Returns (D, err) with D.shape = f(x).shape + x.shape."""
    x0 = np.array(x, dtype=float)
    shp = x0.shape
    xf = x0.reshape(-1)
    sc = np.maximum(np.abs(xf), 0.1) if scale is None else np.broadcast_to(np.asarray(scale, float), xf.shape)
    h0 = 4e-3 if h is None else h
    f0 = np.asarray(f(x0.copy()), dtype=float)
    est = []
    fm = np.zeros(f0.shape)
    for hh in (h0, h0 / 3.0):
        D = np.zeros(f0.shape + (xf.size,))
        for i in range(xf.size):
            acc = np.zeros(f0.shape)
            for c, o in zip(_C, _O):
                if c == 0:
                    continue
                z = xf.copy()
                z[i] = xf[i] + o * hh * sc[i]
                fv = np.asarray(f(z.reshape(shp)), dtype=float)
                fm = np.maximum(fm, np.abs(fv))
                acc = acc + c * fv
            D[..., i] = acc / (hh * sc[i])
        est.append(D.reshape(f0.shape + shp))
    d1, d2 = est
    # rounding floor of the finer step
    fl = (np.max(fm) if fm.size else 0.0) * 4e-16
    floor = np.broadcast_to(fl / (h0 / 3 * sc), f0.shape + (xf.size,)).reshape(f0.shape + shp)
    err = np.minimum(np.abs(d1 - d2), 1e300) + floor
    return d2, err
