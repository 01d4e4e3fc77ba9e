import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
from checks import c08
import doatools.model.arrays as AR
from doatools.model.coarray import WeightFunction1D, compute_location_differences, compute_unique_location_differences

check = Check('C07',
              'all 1D grid designs plus random index sets (unsorted, negative, with holes, duplicated positions), with and '
              'without imperfections; every difference in and around the coarray is queried; random locations in 1D-3D with '
              'planted near-duplicates for the difference utilities; non-trivial = the whole difference table of an array '
              'was compared with a brute-force enumeration of sensor pairs',
              ['near-duplicate clusters are separated by more than 100 tolerances, where the documented behaviour is unambiguous'])


def indexes(rng):
    while True:
        kind, a = _indexes(rng)
        if a.size <= 64 and c08.virtual_size(a.element_indices[:, 0]) <= 260:
            return kind, a


def _indexes(rng):
    kind = gen.pick(rng, 'design', 'design', 'random', 'dup', 'offset')
    if kind == 'design':
        return kind, gen.array_1d_grid(rng, 1.0, max_size=gen.pick(rng, 8, 14))
    m = gen.size(rng, 1, 12)
    if kind == 'dup':
        idx = rng.integers(-5, 6, m)
    else:
        idx = rng.choice(np.arange(-20, 30 if m <= 50 else 3 * m), m, replace=False)
    if kind == 'offset':
        idx = idx + int(rng.integers(-10**6, 10**6))
    kw = {}
    if gen.coin(rng):
        kw['perturbations'] = gen.perturbation_dict(rng, m, 1.0, kinds=['location_errors', 'gain_errors'])
    return kind, AR.GridBasedArrayDesign(idx.reshape((-1, 1)), float(rng.uniform(0.1, 2)), gen.pick(rng, None, 'g'), **kw)


def table(idx):
    m = len(idx)
    t = {}
    for j in range(m):
        for i in range(m):
            t.setdefault(int(idx[i] - idx[j]), []).append(i + j * m)
    return t


def verify(c, w, idx, rng):
    t = table(idx)
    m = len(idx)
    diffs = sorted(t)
    c.same(w.differences(), np.array(diffs), 'differences')
    c.same(w.weights(), np.array([len(t[d]) for d in diffs]), 'weights')
    c.eq(len(w), len(diffs), 'length')
    top = max(diffs)
    probe = range(-top - 3, top + 4) if top < 300 else sorted({d + e for d in diffs for e in (-1, 0, 1)})
    for d in probe:
        form = d if gen.coin(rng, 0.7) else np.int64(d)
        n = len(t.get(d, []))
        c.eq(w(form), n, 'weight', d)
        c.eq(w.weight_of(form), n, 'weight', d)
        c.eq(sorted(int(v) for v in w.indices_of(form)), t.get(d, []), 'positions', d)
    mv = 0
    while mv in t:
        mv += 1
    c.eq(w.get_central_ula_size(), 2 * mv - 1, 'central-size')
    c.eq(w.get_central_ula_size(exclude_negative_part=True), mv, 'central-size-nonnegative')
    c.eq(w.get_central_ula_size(False), 2 * mv - 1, 'central-size')
    F = np.zeros((2 * mv - 1, m * m))
    for r, d in enumerate(range(-mv + 1, mv)):
        F[r, t[d]] = 1.0 / len(t[d])
    c.close(w.get_coarray_selection_matrix(), F, 'selection-matrix', rtol=1e-14)
    c.close(w.get_coarray_selection_matrix(True), F[mv - 1:], 'selection-matrix-nonnegative', rtol=1e-14)


@check.scenario(2500, big=True)
def weight_function(c):
    rng = c.rng
    kind, arr = indexes(rng)
    idx = arr.element_indices[:, 0]
    c.note(kind=kind, type=type(arr).__name__, idx=idx)
    w = WeightFunction1D(arr)
    # whichever query comes first must not matter
    if gen.coin(rng):
        gen.pick(rng, lambda: w.get_coarray_selection_matrix(gen.coin(rng)), lambda: w.get_central_ula_size(gen.coin(rng)),
                 lambda: w.weights())()
    verify(c, w, idx, rng)
    if gen.coin(rng):
        # damage everything that was handed out
        w.differences()[...] = 7
        w.weights()[...] = 7
        for d in (0, int(max(w.differences()))):
            h = w.indices_of(d)
            if isinstance(h, list):
                h.append(99)
                h.reverse()
                h.pop()
        w.get_coarray_selection_matrix()[...] = 7
        verify(c, w, idx, rng)


@check.scenario(60)
def exhaustive_subsets(c):
    """All subsets of {0..9} containing 0 (distributed over the executions)."""
    n = 60
    for s in range(c.index, 512, n):
        idx = [0] + [b + 1 for b in range(9) if s >> b & 1]
        a = AR.GridBasedArrayDesign(np.array(idx).reshape((-1, 1)), 0.5)
        verify(c, WeightFunction1D(a), idx, c.rng)
    c.note(part=c.index)


@check.scenario(1500, big=True)
def meaning(c):
    """The selection matrix applied to a vectorised covariance averages R[i,j] over i-j = lag."""
    rng = c.rng
    kind, arr = indexes(rng)
    idx = arr.element_indices[:, 0]
    m = len(idx)
    R = gen.crandn(rng, m, m)
    c.note(kind=kind, idx=idx, R=R)
    w = WeightFunction1D(arr)
    z = w.get_coarray_selection_matrix() @ R.reshape(-1, order='F')
    mv = w.get_central_ula_size(True)
    D = idx[:, None] - idx[None, :]
    exp = np.array([R[D == lag].mean() for lag in range(-mv + 1, mv)])
    c.close(z, exp, 'redundancy-averaging', atol=1e-12)
    c.ok(bool(np.all(D != mv)), 'maximal')


@check.scenario(1500, big=True)
def location_differences(c):
    rng = c.rng
    d = int(rng.integers(1, 4))
    m = min(gen.size(rng, 1, 9), 18) if gen.coin(rng, 0.99) else int(rng.integers(19, 28))
    form = gen.pick(rng, 'float', 'int', 'lattice', 'cluster')
    if form == 'int':
        x = rng.integers(-4, 5, (m, d))
    elif form == 'lattice':
        x = rng.integers(-3, 4, (m, d)) * float(rng.uniform(0.05, 3))
    else:
        x = rng.normal(size=(m, d)) * float(10 ** rng.uniform(-6, 6))
    if form != 'int' and gen.coin(rng, 0.1):
        x = x.astype(np.float32)
    x = gen.relayout(rng, x)
    c.note(form=form, x=x)
    D = compute_location_differences(x)
    exp = np.array([x[i] - x[j] for j in range(m) for i in range(m)])
    c.same(D, exp, 'differences-order')
    scale = np.abs(exp).max()
    atol, rtol = gen.pick(rng, (0.0, 1e-8), (1e-12 * scale, 1e-10), (1e-6 * scale, 0.0), (0.0, 1e-5))
    tol = atol + rtol * scale
    # unambiguous only when all distances are well below or well above the tolerance
    dist = np.abs(exp[:, None, :] - exp[None, :, :]).max(-1)
    near, far = dist <= tol / 8, dist > tol * 8
    if not np.all(near | far):
        c.skip('ambiguous clustering')
    U = (compute_unique_location_differences(x) if (atol, rtol) == (0.0, 1e-8) and gen.coin(rng)
         else compute_unique_location_differences(x, atol, rtol))
    c.eq(U.shape[1], d, 'shape')
    # clusters: near is transitive by construction of the thresholds
    first = [i for i in range(len(exp)) if not np.any(near[i, :i])]
    c.eq(len(U), len(first), 'unique-count')
    for f in first:
        hit = np.sum(np.abs(U - exp[f]).max(1) <= tol)
        c.eq(int(hit), 1, 'each-difference-represented-once')
    for u in U:
        c.ok(bool(np.any(np.all(exp == u, axis=1))), 'representatives-are-differences')


@check.scenario(600)
def refused(c):
    rng = c.rng
    d = int(rng.integers(2, 4))
    form = gen.pick(rng, 'custom', 'uca', 'ura', 'grid', 'bases')
    if form == 'custom':
        a = AR.ArrayDesign(rng.integers(0, 9, (5, 1)), 'x')
    elif form == 'uca':
        a = AR.UniformCircularArray(5, 1.0)
    elif form == 'ura':
        a = AR.UniformRectangularArray(int(rng.integers(1, 4)), int(rng.integers(1, 4)), 0.5)
    elif form == 'grid':
        a = AR.GridBasedArrayDesign(rng.integers(0, 5, (4, d)), 0.5)
    else:
        a = AR.GridBasedArrayDesign(rng.integers(0, 5, (4, 1)), bases=rng.normal(size=(1, d)))
    c.note(form=form, loc=a.element_locations)
    c.refused(lambda: WeightFunction1D(a), 'not-1d-grid')


history.register(check, ('lattice',), ('weights',))
