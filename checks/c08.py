import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.arrays as AR
import doatools.model.sources as S
from doatools.model.signals import ComplexStochasticSignal
from doatools.model.snapshots import get_narrowband_snapshots
from doatools.estimation.coarray import CoarrayACMBuilder1D

check = Check('C08',
              'random Hermitian matrices (any conditioning, indefinite, real, scaled) for every 1D grid design and random '
              'index sets, and exact covariances of uncorrelated-source models; non-trivial = an augmented covariance was '
              'compared entry by entry with brute-force averages over sensor pairs',
              ['averages are compared up to 1e-12 of the largest entry'])


def design(rng):
    if gen.coin(rng, 0.7):
        return gen.array_1d_grid(rng, 1.0, max_size=gen.pick(rng, 8, 12))
    m = gen.size(rng, 1, 10)
    idx = np.concatenate([[0, 1], rng.integers(-6, 14, m)]) if gen.coin(rng) else rng.integers(-6, 14, m)
    return AR.GridBasedArrayDesign(idx.reshape((-1, 1)), float(rng.uniform(0.1, 2)), gen.pick(rng, None, 'g'))


def lag_averages(R, idx):
    m = len(idx)
    cells = {}
    for i in range(m):
        for j in range(m):
            cells.setdefault(int(idx[i] - idx[j]), []).append(R[i, j])
    return {l: sum(v) / len(v) for l, v in cells.items()}


def virtual_size(idx):
    d = {int(a - b) for a in idx for b in idx}
    n = 0
    while n in d:
        n += 1
    return n


def moderate(make, limit=260):
    """An array whose virtual array is not too large for the reference."""
    while True:
        a = make()
        if virtual_size(a.element_indices[:, 0]) <= limit:
            return a


@check.scenario(2500, big=True)
def augmentation(c):
    rng = c.rng
    a = moderate(lambda: design(rng))
    idx = a.element_indices[:, 0]
    m = a.size
    kind = gen.pick(rng, 'pd', 'indefinite', 'real', 'int')
    if kind == 'pd':
        R = gen.hermitian(rng, m)
    elif kind == 'indefinite':
        R = gen.crandn(rng, m, m)
        R = R + R.conj().T
    elif kind == 'real':
        R = rng.normal(size=(m, m))
        R = R + R.T
    else:
        R = rng.integers(-5, 6, (m, m))
        R = R + R.T
    R = gen.relayout(rng, R)
    c.note(type=type(a).__name__, idx=idx, kind=kind, R=R)
    keep = np.array(R)
    b = CoarrayACMBuilder1D(a)
    n = virtual_size(idx)
    c.eq((b.input_size, b.output_size), (m, n), 'sizes')
    z = lag_averages(keep, idx)
    T = np.array([[z[i - j] for j in range(n)] for i in range(n)])
    top = np.abs(keep).max()
    order = gen.pick(rng, ['da', 'ss'], ['ss', 'da'], ['ss', 'ss', 'da'])
    for meth in order:
        if meth == 'da':
            out = gen.pick(rng, lambda: b.transform(R, 'da'), lambda: b(R, 'da'), lambda: b(R, method='da'))()
            c.close(out, T, 'direct-augmentation', atol=1e-12 * top, rtol=1e-12)
            c.close(out, out.conj().T, 'hermitian', atol=1e-12 * top)
        else:
            out = gen.pick(rng, lambda: b.transform(R), lambda: b(R, 'ss'), lambda: b(R), lambda: b.transform(R, method='ss'))()
            exp = np.zeros((n, n), dtype=complex)
            for s in range(n):
                v = np.array([z[s + i - (n - 1)] for i in range(n)])
                exp += np.outer(v, v.conj())
            exp /= n
            c.close(out, exp, 'spatial-smoothing', atol=1e-12 * top ** 2 * n, rtol=1e-12)
            c.close(out, T @ T.conj().T / n, 'ss-is-da-squared', atol=1e-12 * top ** 2 * n, rtol=1e-12)
        out[...] = 0
    c.same(R, keep, 'input-untouched')
    v = b.get_virtual_ula()
    c.ok(isinstance(v, AR.UniformLinearArray), 'virtual-type')
    c.eq(v.size, n, 'virtual-size')
    c.close(v.element_locations, np.arange(n)[:, None] * a.d0[0], 'virtual-positions', rtol=1e-13)
    c.close(np.ravel(v.d0), np.ravel(a.d0), 'virtual-spacing', rtol=1e-14)
    c.eq(v.is_perturbed, False, 'virtual-unperturbed')
    c.eq(b.get_virtual_ula('vname').name, 'vname', 'virtual-name')


@check.scenario(1200, big=True)
def model_consistent(c):
    """Exact covariance of uncorrelated sources -> exact covariance of the virtual array."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-1, 1))
    a = moderate(lambda: gen.array_1d_grid(rng, wl, max_size=10))
    k = gen.size(rng, 1, 12)
    src = gen.ff1d(rng, k)
    p = rng.uniform(0.1, 3, k)
    noise = float(rng.uniform(0, 2))
    c.note(idx=a.element_indices[:, 0], d0=a.d0, wl=wl, src=src.locations, unit=src.units[0], p=p, noise=noise)
    A = ref.steering(a.element_locations, src, wl)
    R = (A * p) @ A.conj().T + noise * np.eye(a.size)
    if gen.coin(rng, 0.3):
        R = a.steering_matrix(src, wl)
        R = (R * p) @ R.conj().T + noise * np.eye(a.size)
    b = CoarrayACMBuilder1D(a)
    v = b.get_virtual_ula()
    B = ref.steering(np.arange(b.output_size)[:, None] * float(a.d0[0]), src, wl)
    exp = (B * p) @ B.conj().T + noise * np.eye(v.size)
    tol = 1e-9 * p.sum() * max(1, float(np.abs(a.element_locations).max() / wl)) + 1e-12
    c.close(b(R, 'da'), exp, 'model-da', atol=tol)
    c.close(v.steering_matrix(src, wl), B, 'virtual-steering', atol=1e-9 * max(1, float(np.abs(a.element_locations).max() / wl)))
    c.close(b(R, 'ss'), exp @ exp.conj().T / v.size, 'model-ss', atol=tol * (p.sum() + noise) * 4 * v.size)


@check.scenario(600)
def refused(c):
    rng = c.rng
    a = design(rng)
    m = a.size
    c.note(idx=a.element_indices[:, 0])
    b = CoarrayACMBuilder1D(a)
    R = gen.hermitian(rng, m)
    before = (b(R, 'da').copy(), b(R).copy())
    for shape in ((m + 1, m + 1), (m, m + 1), (m + 1, m), (m, 1) if m > 1 else (2, 1), (m,), (m, m, 1)):
        for meth in ('ss', 'da'):
            c.refused(lambda: b(np.zeros(shape), meth), 'wrong-size', msg=str(shape))
    if m > 1:
        c.refused(lambda: b(gen.hermitian(rng, m - 1)), 'wrong-size')
    for meth in ('SS', '', 'dda', 'spatial', None):
        c.refused(lambda: b(R, meth), 'unknown-method')
    c.close(b(R, 'da'), before[0], 'still-usable', rtol=0, atol=1e-12 * np.abs(R).max())
    c.close(b(R), before[1], 'still-usable', rtol=0, atol=1e-12 * np.abs(before[1]).max())
    for x in (AR.UniformRectangularArray(2, 2, 0.5), AR.UniformCircularArray(4, 1.0), AR.ArrayDesign(np.arange(4), 'x'),
              AR.GridBasedArrayDesign(rng.integers(0, 4, (3, 1)), bases=rng.normal(size=(1, 2)))):
        c.refused(lambda: CoarrayACMBuilder1D(x), 'not-1d-grid')


history.register(check, ('lattice',), ('coarray', 'weights'))
