import itertools
import numpy as np
from scipy import stats
from vlib import gen, history, ref
from vlib.core import Check
from doatools.utils.math import vec, abs_squared, khatri_rao, projm, cartesian, randcn, unique_rows
from doatools.utils.conversion import ae2broad, convert_angles, cart2spherical

check = Check('C22',
              'real, complex, integer, empty, single-element and ill-conditioned matrices in hostile memory layouts; clustered rows with '
              'noise below the tolerance, NaN and duplicates; angles over the whole ranges including the end points; sample sets of up '
              'to 2e5 complex normal values; non-trivial = the value was compared with an element-by-element definition or an identity',
              ['statistical thresholds at a false-alarm probability below 1e-9 per comparison'])
LD = np.longdouble


def matrix(rng, m, n, kinds=('r', 'c', 'i', 'f32', 'c64')):
    kind = gen.pick(rng, *kinds)
    if kind == 'r':
        x = rng.normal(size=(m, n)) * 10 ** rng.uniform(-3, 3)
    elif kind == 'c':
        x = gen.crandn(rng, m, n) * 10 ** rng.uniform(-3, 3)
    elif kind == 'i':
        x = rng.integers(-9, 10, (m, n))
    elif kind == 'f32':
        x = rng.normal(size=(m, n)).astype(np.float32)
    else:
        x = gen.crandn(rng, m, n).astype(np.complex64)
    return gen.relayout(rng, x)


@check.scenario(3000, big=True)
def algebra(c):
    rng = c.rng
    m, n = gen.size(rng, 1, 8), gen.size(rng, 1, 8)
    if gen.coin(rng, 0.01):
        m = int(rng.integers(60, 250))
    x = matrix(rng, m, n)
    if x.dtype.itemsize >= 8 and x.dtype.kind in 'fc' and x.dtype != np.complex64 and gen.coin(rng, 0.1):
        x = x * 10 ** rng.uniform(-100, 100)
    keep = x.copy()
    c.note(x=x)
    v = vec(x)
    c.eq(v.shape, (m * n, 1), 'vec-shape')
    c.same(v[:, 0], np.array([x[i % m, i // m] for i in range(m * n)]), 'vec')
    a2 = abs_squared(x)
    want = np.array([[LD(z.real) ** 2 + LD(z.imag) ** 2 for z in row] for row in x], dtype=object).astype(float)
    c.close(a2, want, 'abs-squared', rtol=4 * np.finfo(x.dtype if x.dtype.kind in 'fc' else float).eps)
    c.ok(not np.iscomplexobj(a2), 'abs-squared-real')
    k = gen.size(rng, 1, 7)
    p, q = gen.size(rng, 1, 7), gen.size(rng, 1, 7)
    if gen.coin(rng, 0.01):
        p = int(rng.integers(60, 150))
    a, b = matrix(rng, p, k), matrix(rng, q, k)
    if a.dtype.itemsize >= 8 and a.dtype.kind in 'fc' and a.dtype != np.complex64 and gen.coin(rng, 0.1):
        a = a * 10 ** rng.uniform(-60, 60)
    ka, kb = a.copy(), b.copy()
    c.note(a=a, b=b)
    kr = khatri_rao(a, b)
    want = np.zeros((p * q, k), dtype=complex)
    for col in range(k):
        for i in range(p):
            for j in range(q):
                want[i * q + j, col] = complex(a[i, col]) * complex(b[j, col])
    eps = max([np.finfo(y.dtype).eps for y in (a, b) if y.dtype.kind in 'fc'] + [1e-16])
    c.close(kr, want, 'khatri-rao', rtol=8 * eps, atol=8 * eps * np.abs(want).max())
    c.ok(np.iscomplexobj(kr) == (np.iscomplexobj(a) or np.iscomplexobj(b)), 'khatri-rao-type')
    c.refused(lambda: khatri_rao(a, matrix(rng, q, k + 1)), 'khatri-rao-columns')
    # vec(A X B) = (B^T kron A) vec(X), vec(A diag(d) B^T) = (B kr A) d
    d = gen.crandn(rng, k)
    M = a.astype(complex) @ np.diag(d) @ b.astype(complex).T
    c.close(vec(M)[:, 0], khatri_rao(b, a) @ d, 'vec-khatri-rao', rtol=0, atol=100 * eps * k * np.abs(want).max() * np.abs(d).max())
    c.same(x, keep, 'input-modified')
    c.same(a, ka, 'input-modified')
    c.same(b, kb, 'input-modified')
    xs = [gen.pick(rng, rng.normal(size=int(rng.integers(1, 5))), rng.integers(-5, 6, int(rng.integers(1, 5)))) for _ in range(int(rng.integers(1, 5)))]
    c.note(xs=xs)
    got = cartesian(*xs)
    want = np.array(list(itertools.product(*[list(z) for z in xs])), dtype=float).reshape((-1, len(xs)))
    c.same(got, want, 'cartesian')


@check.scenario(3000, big=True)
def projection(c):
    rng = c.rng
    m = gen.size(rng, 1, 11)
    if gen.coin(rng, 0.003):
        m = int(rng.integers(60, 200))
    k = int(rng.integers(1, m + 1))
    kind = gen.pick(rng, 'r', 'c', 'c', 'i', 'steer', 'graded', 'near', 'rank')
    pinv = kind in ('near', 'rank') or gen.coin(rng, 0.4)
    if kind == 'i':
        A = rng.integers(-5, 6, (m, k))
    elif kind == 'steer':
        A = np.exp(1j * np.pi * np.outer(np.arange(m), gen.separated_sines(rng, k)))
    elif kind in ('graded', 'near'):
        U, V = np.linalg.qr(gen.crandn(rng, m, k))[0], np.linalg.qr(gen.crandn(rng, k, k))[0]
        s = 10 ** -np.linspace(0, rng.uniform(0, 4), k)
        if kind == 'near' and k > 1:
            s[-1] = 10.0 ** rng.uniform(-17, -9)
        A = (U * s) @ V.conj().T
    elif kind == 'rank':
        q = int(rng.integers(1, k + 1))
        A = gen.crandn(rng, m, q) @ gen.crandn(rng, q, k)
    else:
        A = gen.crandn(rng, m, k)
        if kind == 'r':
            A = A.real
    if kind not in ('i', 'near') and gen.coin(rng, 0.2):
        A = A * 10 ** rng.uniform(-60, 60)
    A = gen.relayout(rng, A)
    keep = A.copy()
    c.note(kind=kind, pinv=pinv, A=A)
    s = np.linalg.svd(A, compute_uv=False)
    cond = s[0] / s[-1] if s[-1] > 0 else np.inf
    if not pinv and not cond < 1e5:
        c.skip('singular')
    if s[0] == 0:
        c.skip('zero')
    Pm = projm(A, True) if pinv else (projm(A) if gen.coin(rng) else projm(A, use_pinv=False))
    c.same(A, keep, 'input-modified')
    c.eq(np.shape(Pm), (m, m), 'shape')
    tol = 1e-9 if pinv else 1e-12 + 1e-14 * cond ** 2
    c.close(Pm, Pm.conj().T, 'hermitian', rtol=0, atol=tol)
    c.close(Pm @ Pm, Pm, 'idempotent', rtol=0, atol=tol)
    w = np.linalg.eigvalsh(0.5 * (Pm + Pm.conj().T))
    c.close(w, np.round(w), 'eigenvalues-0-1', rtol=0, atol=tol)
    c.close(Pm @ A / s[0], A / s[0], 'fixes-columns', rtol=0, atol=max(tol, 1e-12))
    rank = int(np.sum(s > 1e-8 * s[0]))
    if kind == 'near':
        c.ok(rank <= round(w.sum()) <= k, 'rank', lambda: 'trace {0}, rank {1} of {2}'.format(w.sum(), rank, k))
    elif np.any((s < 1e-8 * s[0]) & (s > 1e-16 * s[0])):
        c.ok(rank <= round(w.sum()) <= k, 'rank')
    else:
        c.close(w.sum(), rank, 'rank', rtol=0, atol=m * tol)
    c.ok(np.iscomplexobj(Pm) == np.iscomplexobj(A), 'type')


@check.scenario(2500, big=True)
def rows(c):
    rng = c.rng
    d = int(rng.integers(1, 4))
    g = gen.size(rng, 1, 9)
    n = gen.size(rng, 1, 30)
    if gen.coin(rng, 0.01):
        n = int(rng.integers(300, 1500))
    kind = gen.pick(rng, 'exact', 'noise', 'int', 'abs', 'grid')
    kw = {}
    if kind == 'int':
        base = rng.integers(-3, 4, (g, d))
    elif kind == 'grid':
        base = rng.integers(-3, 4, (g, d)) * float(rng.uniform(0.01, 5))
    else:
        base = rng.normal(size=(g, d)) * 10 ** rng.uniform(-8, 8)
        if gen.coin(rng, 0.3):
            base[:, 0] = base[0, 0]
    x = base[rng.integers(0, g, n)]
    top = float(np.abs(x).max())
    tol = 1e-8 * top
    if kind in ('noise', 'grid'):
        x = x * (1 + rng.uniform(-1e-10, 1e-10, x.shape))
    elif kind == 'abs':
        tol = 0.01 * top
        if gen.coin(rng):
            kw = {'atol': tol, 'rtol': 0.0}
        else:
            kw = {'atol': tol / 2, 'rtol': 0.005}
        x = x + rng.uniform(-1, 1, x.shape) * tol * 0.2
    elif kind == 'int' and gen.coin(rng):
        kw = {'atol': 0, 'rtol': 0}
    if x.dtype.kind == 'f' and gen.coin(rng, 0.05):
        x = x.astype(np.float32)
    x = gen.relayout(rng, np.ascontiguousarray(x))
    keep = x.copy()
    # groups: close (<= 0.6 tol) or clearly apart (>= 1.5 tol) so that the answer is unique
    diff = np.abs(x[:, None, :] - x[None, :, :]).max(axis=2).astype(float)
    t = tol if kw.get('rtol', 1e-8) or kw.get('atol', 0) else 0.0
    close = diff <= 0.6 * t
    if np.any(~close & (diff < 1.5 * t)):
        c.skip('ambiguous')
    first = [i for i in range(n) if not np.any(close[i, :i])]
    c.note(kind=kind, x=x, kw=kw)
    y = unique_rows(x, **kw)
    c.same(y, x[first], 'first-occurrences')
    y, idx = unique_rows(x, return_index=True, **kw)
    c.same(y, x[first], 'first-occurrences')
    c.same(idx, first, 'indices')
    y, idx = unique_rows(x, return_index=True, sort=True, **kw)
    c.same(x[idx], y, 'sorted-indices')
    c.eq(sorted(idx.tolist()), first, 'sorted-set')
    t_ = [tuple(r) for r in y.tolist()]
    c.eq(t_, sorted(t_), 'lexicographic')
    c.same(unique_rows(x, sort=True, **kw), y, 'sorted')
    c.same(x, keep, 'input-modified')
    c.ok(not np.shares_memory(y, x), 'aliases-input')
    for bad in (x[:, 0], x[None]):
        c.refused(lambda: unique_rows(bad), 'matrix-only')
    e = np.zeros((0, d))
    y, idx = unique_rows(e, return_index=True)
    c.eq((y.shape, e[idx].shape, unique_rows(e).shape), ((0, d),) * 3, 'empty')


@check.scenario(3000)
def angles(c):
    rng = c.rng
    n = int(rng.integers(0, 9)) if gen.coin(rng, 0.95) else int(rng.integers(9, 400))
    shape = gen.pick(rng, (n,), (n,), (n, 1), (n, 2), (2, n), (2, n, 2))
    u = gen.pick(rng, 'rad', 'deg', 'sin')
    v = gen.pick(rng, 'rad', 'deg', 'sin')
    lim = gen.LIMITS[u]
    # full circle between radians and degrees, half circle with sines
    mul = 2.0 if u != 'sin' and v != 'sin' else 1.0
    x = rng.uniform(-1, 1, shape) * lim * mul
    if x.size and gen.coin(rng, 0.3):
        x.flat[int(rng.integers(x.size))] = gen.pick(rng, lim, -lim, 0.0, 1e-300, -1e-12, lim * mul, -lim * mul)
    if u == 'deg' and gen.coin(rng, 0.2):
        x = np.round(x).astype(int)
    unit_eps = 1.0
    if u == v and gen.coin(rng, 0.1):
        x = x * 10 ** rng.uniform(-300, 300)
    elif x.dtype.kind == 'f' and gen.coin(rng, 0.06):
        x = np.clip(x.astype(np.float32) * np.float32(0.9999), -lim * mul, lim * mul)
        unit_eps = 2.0 ** 29
    x = gen.relayout(rng, x)
    keep = x.copy()
    c.note(u=u, v=v, x=x)
    y = convert_angles(x, u, v)
    c.same(x, keep, 'input-modified')
    c.ok(isinstance(y, np.ndarray) and not np.shares_memory(x, y), 'new-array')
    xl = x.astype(LD)
    f = ref.PI / LD(180)
    if u == v:
        c.same(y, x, 'same-unit')
    else:
        if v == 'sin':
            want = np.sin(xl * f if u == 'deg' else xl)
            tol = 8e-16 * (np.abs(xl).astype(float) * (np.pi / 180 if u == 'deg' else 1) + np.abs(want).astype(float))
        else:
            r = np.arcsin(xl) if u == 'sin' else xl * f if u == 'deg' else xl
            want = r / f if v == 'deg' else r
            tol = 8e-16 * np.abs(want).astype(float)
        c.close(y, want.astype(float), 'convert', rtol=0, atol=tol * unit_eps + 1e-300)
        if unit_eps > 1:
            return
        back = convert_angles(y, v, u)
        if 'sin' in (u, v):
            # slope of the arcsine
            s = np.minimum(np.abs(y if v == 'sin' else x).astype(float), 1)
            t = 1e-15 * lim * (1 + 1 / np.maximum(np.sqrt(1 - s * s), 3e-8))
        else:
            t = 1e-15 * lim
        c.close(back, x.astype(float), 'invertible', rtol=0, atol=np.broadcast_to(t, x.shape))
    for bad in ((u, 'grad'), ('cos', v), (u, ''), (u, None)):
        c.refused(lambda: convert_angles(x, *bad), 'unknown-unit')


@check.scenario(3000, big=True)
def geometry(c):
    rng = c.rng
    n = int(rng.integers(1, 9)) if gen.coin(rng, 0.96) else int(rng.integers(9, 400))
    d = int(rng.integers(1, 4))
    p = rng.normal(size=(n, d)) * 10 ** rng.uniform(-6, 6)
    r = rng.random()
    if r < 0.2:
        p[0, int(rng.integers(d))] = 0.0
    elif r < 0.3:
        p[0] = 0.0
    elif r < 0.45:
        p = rng.integers(-4, 5, (n, d))
    elif r < 0.55:
        p[0] = 0.0
        p[0, -1] = gen.pick(rng, 1.0, -1.0)
    p = gen.relayout(rng, p)
    keep = p.copy()
    c.note(p=p)
    s = cart2spherical(p)
    c.same(p, keep, 'input-modified')
    c.eq(s.shape, (n, 3), 'shape')
    q = ref.pad3(p)
    rr = np.sqrt(np.sum(q * q, axis=1))
    c.close(s[:, 0], rr.astype(float), 'range', rtol=4e-16 * 4)
    c.ok(np.all(np.abs(s[:, 1]) <= np.pi) and np.all(np.abs(s[:, 2]) <= np.pi / 2), 'angle-range')
    az, el = s[:, 1].astype(LD), s[:, 2].astype(LD)
    u = np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)], 1) * s[:, :1]
    c.close(u.astype(float), q.astype(float), 'direction', rtol=0, atol=4e-15 * float(rr.max()))
    if d < 3:
        c.same(s[:, 2], np.zeros(n), 'planar')
    # azimuth/elevation -> broadside: the sine is the direction cosine along x
    k = int(rng.integers(1, 9)) if gen.coin(rng, 0.96) else int(rng.integers(9, 400))
    a = rng.uniform(-np.pi, np.pi, k)
    e = rng.uniform(-np.pi / 2, np.pi / 2, k)
    if gen.coin(rng, 0.3):
        a[0] = gen.pick(rng, 0.0, np.pi, -np.pi, np.pi / 2, -np.pi / 2)
        e[0] = gen.pick(rng, 0.0, np.pi / 2, -np.pi / 2)
    if gen.coin(rng, 0.05):
        a, e = np.round(a).astype(int), np.round(0.6 * e).astype(int)
    ae = gen.relayout(rng, np.stack([a, e], 1))
    kae = ae.copy()
    b = ae2broad(ae)
    c.same(ae, kae, 'input-modified')
    c.eq(b.shape, (k, 1), 'broadside-shape')
    w = (np.cos(ae[:, 0].astype(LD)) * np.cos(ae[:, 1].astype(LD))).astype(float)
    c.close(np.sin(b[:, 0].astype(LD)).astype(float), w, 'broadside', rtol=0, atol=4e-16)
    c.ok(np.all(np.abs(b) <= np.pi / 2), 'broadside-range')
    flat = np.stack([a, np.zeros(k)], 1)
    th = np.arcsin(np.cos(a))
    c.close(ae2broad(flat)[:, 0], th, 'broadside-flat', rtol=0, atol=3e-8)


@check.scenario(200)
def normal_samples(c):
    rng = c.rng
    shape = gen.pick(rng, (5,), (3, 4), (2, 3, 4), (1, 1), (0, 3), (1,), (2, 1, 3, 2))
    c.eq(randcn(shape).shape, shape, 'shape')
    n = int(rng.integers(20000, 200000))
    dims = gen.pick(rng, (n,), (n // 10, 10), (2, n // 2), (n // 100, 10, 10))
    small = gen.pick(rng, None, None, (1,), (1, 1), (2,), (1, 2, 1))
    c.note(n=n, dims=dims, small=small, state=int(np.random.randint(1 << 30)))
    if small:
        # many small requests pooled
        z = [randcn(small) for _ in range(12000)]
        c.eq({x.shape for x in z}, {small}, 'shape')
        z = np.array(z)
    else:
        z = randcn(dims)
        c.eq(z.shape, dims, 'shape')
    c.ok(np.iscomplexobj(z), 'complex')
    z = z.ravel()
    n = z.size
    lim = 6.5
    for name, v in (('re', z.real), ('im', z.imag)):
        t = v * np.sqrt(2)
        c.ok(abs(t.mean()) * np.sqrt(n) < lim, 'mean', name)
        c.ok(abs((t ** 2).mean() - 1) * np.sqrt(n / 2) < lim, 'variance', name)
        c.ok(abs((t ** 3).mean()) * np.sqrt(n / 15) < lim, 'skewness', name)
        c.ok(abs((t ** 4).mean() - 3) * np.sqrt(n / 96) < lim + 1.5, 'kurtosis', name)
        c.ok(stats.kstest(t, 'norm').pvalue > 1e-10, 'distribution', name)
        c.ok(abs(np.mean(t[1:] * t[:-1])) * np.sqrt(n) < lim, 'serial', name)
    c.ok(abs(np.mean(z.real * z.imag)) * 2 * np.sqrt(n) < lim, 'circular')
    c.ok(abs(np.mean(z.real ** 2 * z.imag ** 2) * 4 - 1) * np.sqrt(n / 8) < lim + 1.5, 'independent-parts')
    # seeded through numpy's global generator
    np.random.seed(123)
    a = randcn((4, 3))
    b = randcn((4, 3))
    np.random.seed(123)
    c.same(randcn((4, 3)), a, 'reproducible')
    c.ok(not np.array_equal(a, b), 'fresh')


history.register(check, ('sources', 'matrix'), ())
