import numpy as np
import scipy.linalg as sl
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.arrays as AR
import doatools.model.sources as S
from doatools.performance.crb import crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d

check = Check('C18',
              'random arrays in 1D to 3D with any imperfections, 1D far-field sources in every unit, powers in every form and of varied '
              'correlation and range, noise levels, snapshot counts, more sources than sensors for the uncorrelated bound; '
              'non-trivial = the bound was compared with the inverse of a Fisher information matrix assembled parameter by parameter '
              'from reference steering vectors and derivatives',
              ['tolerance proportional to the condition number of the (diagonally scaled) information matrix; beyond 1e6 out of domain'])

F = {'sto': crb_sto_farfield_1d, 'det': crb_det_farfield_1d, 'stouc': crb_stouc_farfield_1d}
RANGE = {'rad': np.arcsin, 'deg': lambda v: np.rad2deg(np.arcsin(v)), 'sin': lambda v: v}


def inverse_block(FIM, k):
    """Leading k x k block of the inverse, and the condition number of the scaled matrix."""
    d = np.diag(FIM)
    if not np.all(np.isfinite(FIM)) or d.min() <= 0:
        return None, np.inf
    d = 1 / np.sqrt(d)
    G = FIM * np.outer(d, d)
    w = sl.eigvalsh(G)
    if w[0] <= 1e-9 * w[-1]:
        return None, np.inf
    X = sl.cho_solve(sl.cho_factor(G), np.eye(len(G))[:, :k])[:k]
    return X * np.outer(d[:k], d[:k]), w[-1] / w[0]


def gaussian_fim(R, halves, dRs):
    """tr(R^-1 dR_i R^-1 dR_j) through whitened derivatives; the first ones are t + t^H for t in halves."""
    dRs = [t + t.conj().T for t in halves] + dRs
    for t, d in zip(halves, dRs):
        if np.linalg.norm(d) < 1e-4 * np.linalg.norm(t):
            return np.zeros((len(dRs), len(dRs)))      # the covariance does not depend on this location
    w = np.linalg.eigvalsh(R)
    if w[0] <= 1e-7 * w[-1]:
        return np.zeros((len(dRs), len(dRs)))          # out of domain
    L = np.linalg.cholesky(R)
    W = [sl.solve_triangular(L, sl.solve_triangular(L, d, lower=True).conj().T, lower=True).conj().T for d in dRs]
    V = np.stack([np.concatenate((w.real.ravel(), w.imag.ravel())) for w in W])
    return V @ V.T


def fim_sto(A, D, P, sigma):
    m, k = A.shape
    R = A @ P @ A.conj().T + sigma * np.eye(m)
    dRs = []
    halves = [np.outer(D[:, i], (A @ P[i].conj()).conj()) for i in range(k)]       # d_i p_i A^H with p_i the i-th row of P
    for i in range(k):
        dRs.append(np.outer(A[:, i], A[:, i].conj()))
    for i in range(k):
        for j in range(i + 1, k):
            t = np.outer(A[:, i], A[:, j].conj())
            dRs += [t + t.conj().T, 1j * (t - t.conj().T)]
    dRs.append(np.eye(m, dtype=complex))
    return gaussian_fim(R, halves, dRs)


def fim_stouc(A, D, p, sigma):
    m, k = A.shape
    R = (A * p) @ A.conj().T + sigma * np.eye(m)
    halves = [p[i] * np.outer(D[:, i], A[:, i].conj()) for i in range(k)]
    dRs = [np.outer(A[:, i], A[:, i].conj()) for i in range(k)] + [np.eye(m, dtype=complex)]
    return gaussian_fim(R, halves, dRs)


def fim_det(A, D, P, sigma):
    """T = k snapshots whose sample covariance is P; information per snapshot."""
    m, k = A.shape
    w, V = np.linalg.eigh(P)
    X = (V * np.sqrt(np.maximum(w, 0))) @ V.conj().T * np.sqrt(k)
    cols = []
    for i in range(k):
        cols.append(np.outer(D[:, i], X[i]).ravel(order='F'))
    for t in range(k):
        for i in range(k):
            e = np.zeros((m, k), dtype=complex)
            e[:, t] = A[:, i]
            cols += [e.ravel(order='F'), 1j * e.ravel(order='F')]
    J = np.stack(cols, 1)
    J = np.concatenate((J.real, J.imag))
    return 2 / sigma * (J.T @ J) / k


def scene(c, over=False):
    rng = c.rng
    wl = gen.wavelength(rng, False)
    perts = {}

    def kw(m):
        perts.clear()
        if gen.coin(rng, 0.6):
            perts.update(gen.perturbation_dict(rng, m, wl))
        return {'perturbations': dict(perts)}
    for _ in range(60):
        arr = gen.array(rng, wl, kw=kw, max_size=8)
        if 2 <= arr.size <= 26:
            break
    else:
        c.skip('size')
    m = arr.size
    k = int(rng.integers(1, m)) if not over else int(rng.integers(m, 2 * m + 1))
    if not over and gen.coin(rng, 0.5):
        k = min(k, 3)
    if m > 16:
        k = min(k, 10)
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    s = gen.separated_sines(rng, k, -0.9, 0.9, min(0.25, 1.2 / max(k, 1)))
    if gen.coin(rng):
        s = rng.permutation(s)
    src = S.FarField1DSourcePlacement(RANGE[unit](s), unit)
    plist = [(n, v, kn) for n, (v, kn) in perts.items()]
    nom = np.asarray(arr.element_locations, float)
    A, _, D, _ = ref.perturbed_steering(nom, plist, src, wl, deriv=True)
    # a direction in which the array has no (relative) aperture carries no information
    q = np.abs(D / np.maximum(np.abs(A), 1e-300)).max(axis=0) * (180 / np.pi if unit == 'deg' else 1.0)
    if not 1e-2 < q.min() <= q.max() < 1e4:
        c.skip('no aperture')
    sigma = gen.noise_power(rng)
    n = gen.snapshot_count(rng, 1, 2, 10, 100, 12345)
    c.note(m=m, k=k, wl=wl, unit=unit, loc=np.asarray(src.locations), perts=[(x, kn) for x, _, kn in plist], sigma=sigma, n=n)
    return rng, wl, arr, src, A, D, k, m, sigma, n


def powers(rng, k, full=True, diag_only=False):
    """(argument, matrix)"""
    form = gen.pick(rng, 'scalar', 'int', 'npscalar', 'list', 'vec', 'vecint', 'diag', 'full', 'full', 'real', 'nested') if full else \
        gen.pick(rng, 'scalar', 'int', 'npscalar', 'list', 'vec', 'vecint', 'diag', 'nested')
    v = 10 ** rng.uniform(-1, 1, k)
    if form == 'scalar':
        x = float(v[0])
        return form, x, x * np.eye(k)
    if form == 'int':
        return form, 3, 3.0 * np.eye(k)
    if form == 'npscalar':
        return form, np.float64(v[0]), v[0] * np.eye(k)
    if form == 'list':
        return form, v.tolist(), np.diag(v)
    if form == 'vec':
        return form, gen.relayout(rng, v), np.diag(v)
    if form == 'vecint':
        i = rng.integers(1, 9, k)
        return form, i, np.diag(i.astype(float))
    if form == 'diag':
        return form, gen.relayout(rng, np.diag(v)), np.diag(v)
    if form == 'nested':
        P = np.diag(v) if not full else gen.source_cov(rng, k, 'full').real
        return form, P.tolist(), P
    P = gen.source_cov(rng, k, 'full')
    if form == 'real':
        P = P.real
    return form, gen.relayout(rng, P), P


def modes(c, f, args, full, kw=None):
    """The three output modes agree, 'full' being the default."""
    kw = kw or {}
    k = full.shape[0]
    c.close(f(*args, return_mode='full', **kw), full, 'mode-full', rtol=1e-12)
    d = f(*args, return_mode='diag', **kw)
    c.eq(np.shape(d), (k,), 'mode-diag-shape')
    c.close(d, np.diag(full), 'mode-diag', rtol=1e-12)
    c.close(f(*args, return_mode='mean_diag', **kw), np.mean(np.diag(full)), 'mode-mean', rtol=1e-12)
    for bad in ('Full', 'trace', '', None):
        c.refused(lambda: f(*args, return_mode=bad, **kw), 'mode-unknown')


def verify(c, X, expect, cond, tag):
    c.eq(np.asarray(X).dtype.kind, 'f', 'real', tag)
    d = np.sqrt(np.diag(expect))
    c.eq(np.shape(X), expect.shape, 'shape', tag)
    c.close(X / np.outer(d, d), expect / np.outer(d, d), tag, rtol=0, atol=1e-7 + 1e-10 * cond)
    c.close(X, np.asarray(X).T, 'symmetric', rtol=0, atol=1e-13 * np.abs(X).max())
    c.ok(np.linalg.eigvalsh(X / np.outer(d, d)).min() > 0, 'positive-definite', tag)


def limits(c, cond, A):
    if not cond < 1e6 or np.linalg.cond(A) > 1e3:
        c.skip('ill-conditioned')


@check.scenario(2500, big=True)
def stochastic(c):
    rng, wl, arr, src, A, D, k, m, sigma, n = scene(c)
    form, p, P = powers(rng, k)
    c.note(form=form, P=P)
    E, cond = inverse_block(fim_sto(A, D, P.astype(complex), sigma), k)
    limits(c, cond, A)
    cond *= max(1.0, np.linalg.cond(P))
    args = (arr, src, wl, p, sigma) if n == 1 and gen.coin(rng) else (arr, src, wl, p, sigma, n)
    X = crb_sto_farfield_1d(*args)
    verify(c, X, E / n, cond, 'sto')
    if gen.coin(rng, 0.2):
        modes(c, crb_sto_farfield_1d, args, X)


@check.scenario(2500, big=True)
def deterministic(c):
    rng, wl, arr, src, A, D, k, m, sigma, n = scene(c)
    P = gen.source_cov(rng, k)
    if gen.coin(rng, 0.2):
        P = np.diag(rng.integers(1, 9, k))
    elif gen.coin(rng, 0.2) and k > 1:          # fewer snapshots than sources
        X = gen.crandn(rng, k, k - 1)
        P = X @ X.conj().T / (k - 1) + 0.02 * np.eye(k)
    c.note(P=P)
    E, cond = inverse_block(fim_det(A, D, P.astype(complex), sigma), k)
    limits(c, cond, A)
    args = (arr, src, wl, gen.relayout(rng, P), sigma, n)
    X = crb_det_farfield_1d(*args)
    verify(c, X, E / n, cond * max(1.0, np.linalg.cond(P)), 'det')
    if n == 1:
        c.close(crb_det_farfield_1d(arr, src, wl, P, sigma), X, 'default-snapshots', rtol=1e-9)
    if gen.coin(rng, 0.2):
        modes(c, crb_det_farfield_1d, args, X)


@check.scenario(2500, big=True)
def uncorrelated(c):
    over = gen.coin(c.rng, 0.4)
    rng, wl, arr, src, A, D, k, m, sigma, n = scene(c, over)
    form, p, P = powers(rng, k, full=gen.coin(rng, 0.4))
    c.note(form=form, P=P, over=over)
    E, cond = inverse_block(fim_stouc(A, D, np.real(np.diag(P)), sigma), k)
    if not cond < 1e6:
        c.skip('ill-conditioned')
    args = (arr, src, wl, p, sigma) if n == 1 and gen.coin(rng) else (arr, src, wl, p, sigma, n)
    X = crb_stouc_farfield_1d(*args)
    # covariance inverse, then information matrix
    w = sl.eigvalsh((A * np.real(np.diag(P))) @ A.conj().T + sigma * np.eye(m))
    if w[-1] / w[0] > 1e5:
        c.skip('ill-conditioned')
    verify(c, X, E / n, cond * (w[-1] / w[0]), 'stouc')
    if gen.coin(rng, 0.2):
        modes(c, crb_stouc_farfield_1d, args, X)


@check.scenario(1200, big=True)
def relations(c):
    """Scalings, ordering, permutation of the sources, units and the equivalence of the power forms."""
    rng, wl, arr, src, A, D, k, m, sigma, n = scene(c)
    v = 10 ** rng.uniform(-0.7, 0.7, k)
    if np.linalg.cond(A) > 30 or v.max() * m / sigma > 1e4:
        c.skip('ill-conditioned')
    E, cond = inverse_block(fim_sto(A, D, np.diag(v).astype(complex), sigma), k)
    if not cond < 1e5:
        c.skip('ill-conditioned')
    P = np.diag(v)
    base = {'sto': crb_sto_farfield_1d(arr, src, wl, v, sigma, n), 'det': crb_det_farfield_1d(arr, src, wl, P, sigma, n),
            'stouc': crb_stouc_farfield_1d(arr, src, wl, v, sigma, n)}
    a = float(10 ** rng.uniform(-6, 6))
    mult = int(rng.integers(2, 50))
    perm = rng.permutation(k)
    src2 = src[perm.tolist()]
    for name, f in F.items():
        X = base[name]
        d = np.sqrt(np.diag(X))
        arg = P if name == 'det' else v
        c.close(f(arr, src, wl, arg * a, sigma * a, n) / np.outer(d, d), X / np.outer(d, d), 'power-scaling', rtol=0, atol=1e-7, msg=name)
        c.close(f(arr, src, wl, arg, sigma, n * mult) * mult / np.outer(d, d), X / np.outer(d, d), 'snapshots', rtol=0, atol=1e-9, msg=name)
        argp = np.diag(v[perm]) if name == 'det' else v[perm]
        c.close(f(arr, src2, wl, argp, sigma, n) / np.outer(d, d)[np.ix_(perm, perm)], (X / np.outer(d, d))[np.ix_(perm, perm)],
                'permutation', rtol=0, atol=1e-7, msg=name)
        if name != 'det':
            for q in (v.tolist(), P, P.tolist()):
                c.close(f(arr, src, wl, q, sigma, n), X, 'power-forms', rtol=1e-9, atol=1e-12 * np.abs(X).max(), msg=name)
    # sto >= det, sto >= stouc in the positive semidefinite order
    d = np.sqrt(np.diag(base['sto']))
    for low in ('det', 'stouc'):
        w = np.linalg.eigvalsh((base['sto'] - base[low]) / np.outer(d, d))
        c.ok(w.min() >= -1e-7, 'order', lambda: 'sto - {0} has eigenvalue {1}'.format(low, w.min()))
    # other units: chain rule
    to = gen.pick(rng, 'rad', 'deg', 'sin')
    sines = {'rad': np.sin, 'deg': lambda x: np.sin(np.deg2rad(x)), 'sin': lambda x: x}[src.units[0]](np.asarray(src.locations))
    src3 = S.FarField1DSourcePlacement(RANGE[to](sines), to)
    cs = np.sqrt(1 - sines ** 2)
    slope = {'sin': np.ones(k), 'rad': cs, 'deg': cs * np.pi / 180}     # d sin / d location
    g = slope[src.units[0]] / slope[to]
    for name, f in F.items():
        arg = P if name == 'det' else v
        want = base[name] * np.outer(g, g)
        dd = np.sqrt(np.diag(want))
        c.close(f(arr, src3, wl, arg, sigma, n) / np.outer(dd, dd), want / np.outer(dd, dd), 'units', rtol=0, atol=1e-6, msg=name)


@check.scenario(400)
def refusals(c):
    rng = c.rng
    wl = gen.wavelength(rng)
    m = int(rng.integers(4, 8))
    arr = AR.UniformLinearArray(m, wl / 2)
    k = int(rng.integers(1, 4))
    src = S.FarField1DSourcePlacement(np.arcsin(gen.separated_sines(rng, k)))
    others = [S.FarField2DSourcePlacement(np.abs(rng.uniform(0, 1, (k, 2)))), S.NearField2DSourcePlacement(rng.normal(size=(k, 2)))]
    c.note(m=m, k=k, wl=wl)
    for name, f in F.items():
        good = np.eye(k)
        for o in others:
            c.refused(lambda: f(arr, o, wl, good, 1.0), 'source-type', msg=name)
        for bad in (np.eye(k + 1), np.ones((k, k + 1)), np.ones((k + 1, k)), np.ones((k, k, k))):
            c.refused(lambda: f(arr, src, wl, bad, 1.0), 'power-size', msg=name)
        if name != 'det':
            for bad in (np.ones(k + 1), [1.0] * (k + 1), np.ones(k - 1) if k > 1 else np.ones(2), []):
                c.refused(lambda: f(arr, src, wl, bad, 1.0), 'power-size', msg=name)
        else:
            c.refused(lambda: f(arr, src, wl, np.ones(k), 1.0), 'power-size', msg=name)
        for bad in ('DIAG', 'mean', 1):
            c.refused(lambda: f(arr, src, wl, good, 1.0, 5, bad), 'mode-unknown', msg=name)
        x = f(arr, src, wl, good, 1.0)
        c.eq(np.shape(x), (k, k), 'after-refusal')


history.register(check, ('perf',), ())
