import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.arrays as AR
import doatools.model.array_elements as EL
import doatools.model.signals as SG
from doatools.model.snapshots import get_narrowband_snapshots

check = Check('C09',
              'snapshots with recording user-defined generators and with the library generators for random perturbed arrays '
              '(including vector sensors) and all source types; long emissions of both generators for scalar, vector, full and '
              'singular covariances tested against all second-order, circularity, fourth-order, temporal and between-call '
              'moments at 8 sigma; non-trivial = emitted samples were observed and compared',
              ['moment tests allow 8 standard deviations of the exact sampling distribution (false alarm < 1e-12 per test)'])


class Recorder(SG.SignalGenerator):
    def __init__(self, rng, dim, real=False, readonly=False):
        self.rng, self._dim, self.real, self.readonly = rng, dim, real, readonly
        self.log = []

    @property
    def dim(self):
        return self._dim

    def emit(self, n):
        x = self.rng.normal(size=(self._dim, n)) if self.real else gen.crandn(self.rng, self._dim, n)
        x = gen.relayout(self.rng, x)
        if self.readonly:
            x.setflags(write=False)
        self.log.append((n, x, x.copy()))
        return x


def setting(c):
    rng = c.rng
    wl = gen.wavelength(rng, False)
    perts = {}
    vec = gen.coin(rng, 0.15)
    L = int(rng.integers(2, 4)) if vec else 1
    w = rng.normal(size=L)

    def kw(m):
        perts.update(gen.perturbation_dict(rng, m, wl, kinds=[n for n in ('location_errors',) if gen.coin(rng)] if vec else None, wild=True))
        d = {'perturbations': dict(perts)}
        if vec:
            d['element'] = EL.CustomNonisotropicSensor(lambda r, az, el, p: np.stack([x * np.ones(np.shape(az)) for x in w]), L)
        return d

    arr = gen.array(rng, wl, kw=kw, max_size=8)
    k = gen.size(rng, 1, 7)
    src = gen.sources(rng, k, wl)
    A, tol, _ = ref.perturbed_steering(arr.element_locations, [(n, v, kn) for n, (v, kn) in perts.items()], src, wl)
    if float(np.max(tol)) > 1e-6:
        c.skip('phase too large for float64')
    if vec:
        A, tol = np.kron(w[:, None], A), np.kron(np.abs(w)[:, None], tol)
    c.note(array=type(arr).__name__, loc=arr.element_locations, wl=wl, src=src.locations, unit=src.units[0], perts=list(perts), L=L)
    return rng, wl, arr, src, A, tol


@check.scenario(2500, big=True)
def snapshots(c):
    rng, wl, arr, src, A, tol = setting(c)
    m = arr.output_size
    n = gen.pick(rng, 1, 1, 2, 5, gen.size(rng, 1, 60))
    if gen.coin(rng, 0.03):
        n = int(rng.integers(900, 5000)) if gen.coin(rng, 0.9) else int(rng.integers(100001, 140000))
    n = gen.int_kind(rng, n)
    ss = Recorder(rng, src.size, gen.coin(rng, 0.2), gen.coin(rng))
    form = gen.pick(rng, 'none', 'noise', 'noise')
    ns = None if form == 'none' else Recorder(rng, m, gen.coin(rng, 0.2), gen.coin(rng))
    cov = gen.coin(rng)
    c.note(n=n, form=form, cov=cov)
    kw = {}
    if n != 1 or gen.coin(rng):
        kw['n_snapshots'] = n
    if cov or gen.coin(rng):
        kw['return_covariance'] = cov
    r = get_narrowband_snapshots(arr, src, wl, ss, ns, **kw)
    c.eq(isinstance(r, tuple), cov, 'result-structure')
    Y = r[0] if cov else r
    c.ok(len(ss.log) >= 1 and all(x[0] == n for x in ss.log), 'emission-length')
    S = ss.log[-1][2]
    exp = A @ S
    err = tol @ np.abs(S) + 1e-12 * (np.abs(A) @ np.abs(S))
    if ns is not None:
        c.ok(len(ns.log) >= 1 and all(x[0] == n for x in ns.log), 'emission-length')
        exp = exp + ns.log[-1][2]
        err = err + 1e-14 * np.abs(ns.log[-1][2])
    c.close(Y, exp, 'snapshots', atol=err, rtol=1e-12)
    for g in (ss, ns) if ns is not None else (ss,):
        for _, x, keep in g.log:
            c.same(x, keep, 'emitted-signal-untouched')
    if cov:
        R = r[1]
        c.close(R, Y @ Y.conj().T / n, 'sample-covariance', rtol=1e-12, atol=1e-13 * float(np.abs(Y).max() ** 2 + 1e-300))
        c.close(R, R.conj().T, 'hermitian', rtol=1e-12, atol=1e-13 * float(np.abs(Y).max() ** 2 + 1e-300))


@check.scenario(600, big=True)
def simulated(c):
    """Library generators: covariance refers to exactly the returned snapshots, same
    seed same data, and the noise-free part lies in the span of the true steering matrix."""
    rng, wl, arr, src, A, tol = setting(c)
    k, m, n = src.size, arr.output_size, gen.size(rng, 1, 40)
    p = rng.uniform(0.2, 3, k)
    mk = gen.pick(rng, lambda: SG.ComplexStochasticSignal(k, p), lambda: SG.RandomPhaseSignal(k, p), lambda: SG.ComplexStochasticSignal(k),
                  lambda: SG.RandomPhaseSignal(k))
    v = float(rng.uniform(0.1, 2))
    seed = int(rng.integers(2**32))
    c.note(n=n, v=v, p=p, seed=seed)

    def run(noise):
        np.random.seed(seed)
        return get_narrowband_snapshots(arr, src, wl, mk(), SG.ComplexStochasticSignal(m, v) if noise else None, n, True)
    Y, R = run(True)
    Y2, R2 = run(True)
    c.same(Y, Y2, 'reproducible')
    c.same(R, R2, 'reproducible')
    c.eq((Y.shape, R.shape), ((m, n), (m, m)), 'shape')
    c.close(R, Y @ Y.conj().T / n, 'sample-covariance', rtol=1e-12, atol=1e-13 * np.abs(Y).max() ** 2)
    Y0, _ = run(False)
    if np.linalg.cond(A) < 1e6 and m >= k:
        P = np.eye(m) - A @ np.linalg.pinv(A)
        c.close(P @ Y0, np.zeros((m, n)), 'signal-subspace', atol=1e-8 * (1 + np.abs(Y0).max()) + 10 * tol.max() * np.abs(Y0).max())


def moments(c, S, C, gauss, tag):
    """8-sigma tests of all low-order moments of one emission (k,n)."""
    k, n = S.shape
    d = np.real(np.diag(C))
    dd = np.sqrt(np.outer(d, d))
    z = 8.0
    eps = 1e-12 * (d.max(initial=0) + 1e-300)
    c.close(S.mean(1), np.zeros(k), tag + 'zero-mean', atol=z * np.sqrt(d / n) + eps)
    off = dd / np.sqrt(n)
    if gauss:
        lim = z * off
    else:
        lim = z * off * (1 - np.eye(k)) + 1e-12 * dd
    c.close(S @ S.conj().T / n, C, tag + 'covariance', atol=lim + eps)
    c.close(S @ S.T / n, np.zeros((k, k)), tag + 'circularity', atol=z * np.sqrt(2) * off + eps)
    for lag in (1, 2, 7):
        X, Y = S[:, lag:], S[:, :-lag]
        c.close(X @ Y.conj().T / n, np.zeros((k, k)), tag + 'time-independence', atol=z * off * 1.05 + eps)
        c.close(X @ Y.T / n, np.zeros((k, k)), tag + 'time-independence', atol=z * off * 1.05 + eps)
        # dependence of powers (only informative for random amplitudes)
        if gauss:
            U, V = np.abs(X) ** 2 - d[:, None], np.abs(Y) ** 2 - d[:, None]
            c.close(U @ V.T / n, np.zeros((k, k)), tag + 'time-independence', atol=z * np.outer(d, d) / np.sqrt(n) * 1.3 + eps * d.max(initial=0))
    h = n // 2
    X, Y = S[:, :h], S[:, h:2 * h]
    c.close(X @ Y.conj().T / h, np.zeros((k, k)), tag + 'time-independence', atol=z * off * np.sqrt(2.1) + eps)
    c.close(X @ Y.T / h, np.zeros((k, k)), tag + 'time-independence', atol=z * off * np.sqrt(2.1) + eps)
    if gauss:
        # circular Gaussian: E|s|^4 = 2 d^2 (variance 20 d^4); E s^2|s|^2 = 0; E|s|^6 = 6 d^3
        c.close((np.abs(S) ** 4).mean(1), 2 * d ** 2, tag + 'gaussian-4th', atol=z * d ** 2 * np.sqrt(20 / n) + eps * d.max(initial=0))
        c.close((S ** 2 * np.abs(S) ** 2).mean(1), 0 * d, tag + 'gaussian-circular-4th', atol=z * d ** 2 * np.sqrt(24 / n) + eps * d.max(initial=0))
        for part in (S.real, S.imag):
            c.close((part ** 2).mean(1), d / 2, tag + 'part-variance', atol=z * d / np.sqrt(2 * n) + eps)
            c.close((part ** 3).mean(1), 0 * d, tag + 'part-skewness', atol=z * (d / 2) ** 1.5 * np.sqrt(15 / n) + eps)
            c.close((part ** 4).mean(1), 3 * (d / 2) ** 2, tag + 'part-kurtosis', atol=z * (d / 2) ** 2 * np.sqrt(96 / n) + eps * d.max(initial=0))


@check.scenario(240)
def stochastic(c):
    rng = c.rng
    k = gen.size(rng, 1, 7)
    n = 20000 if c.tier == 'quick' else 60000
    form = gen.pick(rng, 'default', 'scalar', 'vector', 'intvector', 'diag', 'full', 'real', 'singular', 'coherent', 'ones', 'scaled', 'weak')
    scale = float(10 ** rng.uniform(-6, 6)) if form == 'scaled' else 1.0
    if form == 'default':
        g, C = SG.ComplexStochasticSignal(k), np.eye(k)
    elif form == 'scalar':
        v = gen.pick(rng, 1, 2, 0.25, float(rng.uniform(0.01, 9)), np.float64(3.0), 0.0)
        g, C = SG.ComplexStochasticSignal(k, v), np.eye(k) * v
    elif form == 'vector':
        v = rng.uniform(0, 5, k)
        if gen.coin(rng):
            v[0] = 0.0
        g, C = SG.ComplexStochasticSignal(k, v), np.diag(v)
    elif form == 'intvector':
        v = rng.integers(0, 6, k)
        g, C = SG.ComplexStochasticSignal(k, v), np.diag(v)
    else:
        if form == 'diag':
            C = np.diag(rng.uniform(0.1, 4, k))
        elif form in ('full', 'scaled'):
            X = gen.crandn(rng, k, k + 2)
            C = X @ X.conj().T * scale
        elif form == 'real':
            X = rng.normal(size=(k, k + 1))
            C = X @ X.T
        elif form == 'singular':
            X = gen.crandn(rng, k, max(1, k - 1))
            C = X @ X.conj().T
        elif form == 'coherent':
            X = np.exp(1j * rng.uniform(0, 6, (k, 1)))
            C = X @ X.conj().T
        elif form == 'weak':          # barely correlated: longer records
            k = min(k, 3) if gen.BIG == 1 else 4
            n = 400000 if c.tier == 'quick' else 1000000
            X = gen.crandn(rng, k, 2 * k)
            C = X @ X.conj().T
            d = np.sqrt(np.real(np.diag(C)))
            C = C / np.outer(d, d)
            C = np.eye(k) + (C - np.eye(k)) * float(rng.uniform(0.01, 0.15)) / max(np.abs(C - np.eye(k)).max(), 1e-9)
            d = rng.uniform(0.5, 2, k)
            C = C * np.outer(d, d)
        else:
            C = np.ones((k, k))
        C = (C + C.conj().T) / 2
        g = SG.ComplexStochasticSignal(k, gen.relayout(rng, C))
    c.note(form=form, k=k, C=C)
    c.eq(g.dim, k, 'dim')
    n1 = gen.size(rng, 1, 50)
    S0 = g.emit(n1)
    c.eq(S0.shape, (k, n1), 'shape')
    S = g.emit(n)
    T = g.emit(n)
    c.eq((S.shape, T.shape), ((k, n), (k, n)), 'shape')
    c.eq(S.dtype.kind, 'c', 'complex')
    moments(c, S, C, True, '')
    moments(c, T, C, True, 'second-call-')
    d = np.real(np.diag(C))
    dd = np.sqrt(np.outer(d, d))
    c.close(S @ T.conj().T / n, 0 * C, 'between-calls', atol=8 * dd / np.sqrt(n) + 1e-12 * d.max(initial=0))
    c.close(S @ T.T / n, 0 * C, 'between-calls', atol=8 * dd / np.sqrt(n) + 1e-12 * d.max(initial=0))
    # samples stay in the range of the covariance
    w, V = np.linalg.eigh(C)
    null = V[:, w < 1e-12 * max(w.max(), 1e-300)]
    c.close(null.conj().T @ S, np.zeros((null.shape[1], n)), 'degenerate-directions', atol=1e-5 * np.sqrt(d.max(initial=0)) + 1e-300)
    # every mixture has the declared variance
    for _ in range(5):
        u = gen.crandn(rng, k)
        v = float(np.real(u.conj() @ C @ u))
        x = u.conj() @ S
        c.close((np.abs(x) ** 2).mean(), v, 'mixture-variance', atol=8 * v / np.sqrt(n) + 1e-9 * d.max(initial=0))


@check.scenario(240)
def random_phase(c):
    rng = c.rng
    k = gen.size(rng, 1, 7)
    n = 20000 if c.tier == 'quick' else 60000
    if gen.coin(rng, 0.1):
        n = 200000
    form = gen.pick(rng, 'default', 'scalar', 'vector', 'int', 'column', 'npscalar')
    if form == 'default':
        g, a = SG.RandomPhaseSignal(k), np.ones(k)
    elif form in ('scalar', 'npscalar'):
        v = float(10 ** rng.uniform(-3, 3)) if gen.coin(rng) else int(rng.integers(1, 5))
        g, a = SG.RandomPhaseSignal(k, np.float64(v) if form == 'npscalar' else v), np.full(k, float(v))
    else:
        a = rng.uniform(0.1, 5, k) if form != 'int' else rng.integers(1, 6, k)
        g = SG.RandomPhaseSignal(k, a.reshape((-1, 1)) if form == 'column' else a)
    a = np.asarray(a, dtype=float)
    c.note(form=form, k=k, a=a)
    c.eq(g.dim, k, 'dim')
    S, T = g.emit(n), g.emit(n)
    c.eq((S.shape, T.shape, g.emit(1).shape), ((k, n), (k, n), (k, 1)), 'shape')
    for X in (S, T):
        c.close(np.abs(X), np.tile(a[:, None], (1, n)), 'amplitude', rtol=1e-12)
        moments(c, X, np.diag(a ** 2), False, '')
    E, F = S / a[:, None], T / a[:, None]
    z = 8 / np.sqrt(n)
    for q in range(1, 7):
        c.close((E ** q).mean(1), np.zeros(k), 'uniform-phase', atol=z)
    # all parts of the circle are visited
    h = np.stack([np.histogram(np.angle(e), bins=40, range=(-np.pi, np.pi))[0] for e in E])
    c.close(h, np.full((k, 40), n / 40.0), 'uniform-phase', atol=8 * np.sqrt(n / 40))
    off = 1 - np.eye(k)
    for q in (1, 2):
        c.close((E ** q) @ (E ** q).conj().T / n * off, 0 * off, 'source-independence', atol=z)
        c.close((E ** q) @ (F ** q).conj().T / n, 0 * off, 'between-calls', atol=z)
        c.close((E ** q) @ (F ** q).T / n, 0 * off, 'between-calls', atol=z)


@check.scenario(80)
def short_emissions(c):
    """Many short emissions of one generator pooled: each has the declared law, and they are independent."""
    rng = c.rng
    k = gen.size(rng, 1, 5)
    n = gen.pick(rng, 1, 1, 2, 3, 7)
    calls = 24000 // n // 2 if c.tier == 'quick' else 60000 // n
    gauss = gen.coin(rng)
    if gauss:
        X = gen.crandn(rng, k, k + 1)
        C = gen.pick(rng, X @ X.conj().T, np.diag(rng.uniform(0.2, 3, k)), np.eye(k) * 2.0)
        C = (C + C.conj().T) / 2
        g = SG.ComplexStochasticSignal(k, np.real(np.diag(C)) if np.count_nonzero(C) == k and gen.coin(rng) else C)
    else:
        a = rng.uniform(0.2, 3, k)
        C = np.diag(a ** 2)
        g = SG.RandomPhaseSignal(k, a)
    cast = gen.pick(rng, int, int, np.int64, np.int32)
    c.note(k=k, n=n, calls=calls, gauss=gauss, C=C, cast=cast.__name__)
    S = [g.emit(cast(n)) for _ in range(calls)]
    c.eq({x.shape for x in S}, {(k, n)}, 'shape')
    S = np.concatenate(S, axis=1)
    N = S.shape[1]
    if not gauss:
        c.close(np.abs(S), np.tile(a[:, None], (1, N)), 'amplitude', rtol=1e-12)
    moments(c, S, C, gauss, 'short-')
    d = np.real(np.diag(C))
    dd = np.sqrt(np.outer(d, d))
    for lag in sorted({1, n, 2 * n}):
        P, Q = S[:, :-lag], S[:, lag:]
        c.close(P @ Q.conj().T / N, 0 * C, 'short-independence', atol=8 * dd / np.sqrt(N))
        c.close(P @ Q.T / N, 0 * C, 'short-independence', atol=8 * dd / np.sqrt(N))


@check.scenario(600, big=True)
def seeds(c):
    rng = c.rng
    k = gen.size(rng, 1, 6)
    X = gen.crandn(rng, k, k)
    mk = gen.pick(rng, lambda: SG.ComplexStochasticSignal(k), lambda: SG.ComplexStochasticSignal(k, np.arange(1.0, k + 1)),
                  lambda: SG.ComplexStochasticSignal(k, X @ X.conj().T), lambda: SG.RandomPhaseSignal(k, 2.0),
                  lambda: SG.RandomPhaseSignal(k, np.arange(1.0, k + 1)))
    seed = int(rng.integers(2**32))
    lens = [int(v) for v in rng.integers(1, 30, int(rng.integers(1, 6)))]
    c.note(k=k, seed=seed, lens=lens)
    np.random.seed(seed)
    g = mk()
    a = [g.emit(n) for n in lens]
    np.random.seed(seed)
    g2 = mk()
    b = [g2.emit(n) for n in lens]
    np.random.seed(seed)       # the same generator object again
    d = [g.emit(n) for n in lens]
    np.random.seed((seed + 1) % 2**32)
    e = mk().emit(lens[0])
    for x, y, z in zip(a, b, d):
        c.same(y, x, 'reproducible')
        c.same(z, x, 'reproducible')
    c.ok(not np.array_equal(e, a[0]), 'seed-matters')
    allx = np.concatenate([x for x in a], 1)
    c.eq(len({v.tobytes() for v in allx.T}), allx.shape[1], 'no-repeated-samples')
    if k > 1:
        c.ok(not np.allclose(np.angle(allx[0]), np.angle(allx[1])), 'sources-differ')
    # the default is unit power
    for cls in (SG.ComplexStochasticSignal, SG.RandomPhaseSignal):
        np.random.seed(seed)
        x = cls(k).emit(lens[0])
        np.random.seed(seed)
        c.close(x, cls(k, 1.0).emit(lens[0]), 'default-unit', rtol=1e-12)


@check.scenario(600)
def refused(c):
    rng, wl, arr, src, A, tol = setting(c)
    k, m = src.size, arr.output_size
    r = c.refused
    bad = gen.pick(rng, k + 1, k + 3, 1 if k > 1 else 2, k - 1 if k > 1 else 2)
    CS, RP = SG.ComplexStochasticSignal, SG.RandomPhaseSignal
    r(lambda: CS(k, np.ones(bad)), 'variance-size')
    r(lambda: CS(k, np.eye(bad)), 'covariance-size')
    r(lambda: CS(k, np.ones((k, bad))), 'covariance-size')
    r(lambda: CS(k, np.ones((bad, k))), 'covariance-size')
    r(lambda: CS(k, np.ones((k, k, 1))), 'covariance-size')
    r(lambda: RP(k, np.ones(bad)), 'amplitude-size')
    n = int(rng.integers(1, 9))
    mk = gen.pick(rng, CS, RP)
    r(lambda: get_narrowband_snapshots(arr, src, wl, mk(bad), CS(m), n), 'source-dimension')
    r(lambda: get_narrowband_snapshots(arr, src, wl, mk(bad), None, n), 'source-dimension')
    badm = gen.pick(rng, m + 1, 1 if m > 1 else 2, m - 1 if m > 1 else 3)
    r(lambda: get_narrowband_snapshots(arr, src, wl, mk(k), CS(badm), n), 'noise-dimension')
    Y = get_narrowband_snapshots(arr, src, wl, mk(k), CS(m), n)
    c.eq(Y.shape, (m, n), 'still-usable')


history.register(check, ('signals',), ())
