import numpy as np
import scipy.linalg as sl
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.arrays as AR
import doatools.model.sources as S
from doatools.performance.mse import ecov_music_1d, ecov_coarray_music_1d
from doatools.performance.crb import crb_sto_farfield_1d, crb_stouc_farfield_1d
from checks.c18 import RANGE, powers, modes

check = Check('C19',
              'random arrays in 1D to 3D with any imperfections and every selection of them (MUSIC), random 1D grid arrays including '
              'more sources than sensors (coarray), sources in every unit, powers in every form and of varied correlation, noise, '
              'snapshots; non-trivial = the covariance was compared with E[(sum_ij dR_ij M_ij)(...)] evaluated from the analytic '
              'influence matrices M of the estimator and the second moments of a complex Wishart matrix',
              ['relative tolerance 1e-7 plus 1e-10 times the condition numbers; beyond 1e6 out of domain'])


def influence(S0, a, d, Pn):
    """M with d(location) = Re tr(dR M) for the null spectrum a^H Pn a at its zero."""
    # Pn(R + dR) = Pn - Pn dR S^+ - S^+ dR Pn
    u = S0 @ a
    v = Pn @ d
    h = np.real(np.vdot(d, v))
    return np.outer(u, v.conj()) / h, h


def wishart_cov(R, Ms):
    """Covariance of Re tr(dR M_i), n = 1."""
    k = len(Ms)
    X = [R @ M for M in Ms]
    Y = [R @ M.conj().T for M in Ms]
    C = np.zeros((k, k))
    for i in range(k):
        for j in range(k):
            C[i, j] = 0.5 * np.real(np.sum(X[i] * X[j].T) + np.sum(X[i] * Y[j].T))
    return C


def pinv_rank(Q, k):
    w, V = np.linalg.eigh(Q)
    V, w = V[:, -k:], w[-k:]
    return (V / w) @ V.conj().T, np.eye(len(Q)) - V @ V.conj().T


def verify(c, X, C, tol, tag):
    c.eq(np.asarray(X).dtype.kind, 'f', 'real', tag)
    c.eq(np.shape(X), C.shape, 'shape', tag)
    d = np.sqrt(np.diag(C))
    c.close(X / np.outer(d, d), C / np.outer(d, d), tag, rtol=0, atol=tol)
    c.close(X, np.asarray(X).T, 'symmetric', rtol=0, atol=tol * np.abs(X).max())
    c.ok(np.linalg.eigvalsh(0.5 * (X + X.T) / np.outer(d, d)).min() >= -tol, 'semidefinite', tag)


def scene_sources(c, k, gap):
    rng = c.rng
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    s = gen.separated_sines(rng, k, -0.9, 0.9, gap)
    if gen.coin(rng):
        s = rng.permutation(s)
    if gen.coin(rng, 0.05):
        s[0] = 0.0 if not np.any(np.abs(s[1:]) < 0.05) else s[0]
    return S.FarField1DSourcePlacement(RANGE[unit](s), unit), unit


@check.scenario(4000, big=True)
def music(c):
    rng = c.rng
    wl = gen.wavelength(rng)
    perts = {}

    def kw(m):
        perts.clear()
        if gen.coin(rng, 0.7):
            perts.update(gen.perturbation_dict(rng, m, wl))
        return {'perturbations': dict(perts)}
    for _ in range(60):
        arr = gen.array(rng, wl, kw=kw, max_size=9)
        if 2 <= arr.size <= 40:
            break
    else:
        c.skip('size')
    m = arr.size
    k = int(rng.integers(1, m))
    if gen.coin(rng):
        k = min(k, 3)
    if m > 16:
        k = min(k, 10)
    src, unit = scene_sources(c, k, min(0.25, 1.2 / k))
    plist = [(n, v, kn) for n, (v, kn) in perts.items()]
    which = gen.pick(rng, 'all', 'known', 'none', 'default')
    sel = ref.select(plist, 'all' if which == 'default' else which)
    nom = np.asarray(arr.element_locations, float)
    A, _, D, _ = ref.perturbed_steering(nom, sel, src, wl, deriv=True)
    q = np.abs(D / np.maximum(np.abs(A), 1e-300)).max(axis=0) * (180 / np.pi if unit == 'deg' else 1.0)
    form, p, P = powers(rng, k)
    sigma = gen.noise_power(rng, -4)
    n = gen.snapshot_count(rng, 1, 2, 10, 100, 12345)
    c.note(m=m, k=k, wl=wl, unit=unit, loc=np.asarray(src.locations), perts=[(x, kn) for x, _, kn in plist], which=which,
           sigma=sigma, n=n, form=form, P=P)
    if not 1e-2 < q.min() <= q.max() < 1e4:
        c.skip('aperture')
    Q = A @ P @ A.conj().T
    cA = np.linalg.cond(A)
    cP = np.linalg.cond(P)
    if cA > 1e3 or cP > 1e4:
        c.skip('ill-conditioned')
    S0, Pn = pinv_rank(Q, k)
    Ms = []
    hmin = 1.0
    for i in range(k):
        M, h = influence(S0, A[:, i], D[:, i], Pn)
        h_rel = h / np.linalg.norm(D[:, i]) ** 2
        if h_rel < 1e-6:
            c.skip('ill-conditioned')
        hmin = min(hmin, h_rel)
        Ms.append(M)
    R = Q + sigma * np.eye(m)
    C = wishart_cov(R, Ms) / n
    args = [arr, src, wl, p, sigma] + ([n] if n > 1 or gen.coin(rng) else [])
    kwa = {} if which == 'default' else {'perturbations': which}
    X = ecov_music_1d(*args, **kwa)
    tol = 1e-7 + 1e-10 * cA ** 2 * cP
    verify(c, X, C, tol, 'music')
    if gen.coin(rng, 0.2):
        modes(c, ecov_music_1d, args, X, kwa)
    if gen.coin(rng, 0.3):
        mult = int(rng.integers(2, 100))
        c.close(ecov_music_1d(arr, src, wl, p, sigma, n * mult, **kwa) * mult, X, 'snapshots', rtol=1e-11, atol=1e-14 * np.abs(X).max())
    if which in ('all', 'default') and cA < 100 and cP < 100:
        B = crb_sto_farfield_1d(arr, src, wl, p, sigma, n)
        d = np.sqrt(np.diag(C))
        G = (X - B) / np.outer(d, d)
        w = np.linalg.eigvalsh(0.5 * (G + G.T)).min()
        # rounding of the projection, magnified by the inversion of the information matrix
        if 1e-15 * cA ** 2 / hmin * np.linalg.cond(C / np.outer(d, d)) < 1e-8:
            c.ok(w >= -1e-6, 'below-crb',
                 lambda: 'MUSIC covariance minus the stochastic CRB has eigenvalue {0}'.format(w))


@check.scenario(3000, big=True)
def coarray(c):
    rng = c.rng
    wl = gen.wavelength(rng)
    arr = gen.array_1d_grid(rng, wl, max_size=gen.pick(rng, 6, 9), ambiguous=gen.coin(rng, 0.3))
    idx = np.asarray(arr.element_indices).ravel().tolist()
    m = len(idx)
    lag = {}
    for i in range(m):
        for j in range(m):
            lag.setdefault(idx[i] - idx[j], []).append((i, j))
    mv = 0
    while mv in lag:
        mv += 1
    if mv < 2 or m > 26:
        c.skip('no virtual array')
    k = int(rng.integers(1, mv))
    if gen.coin(rng):
        k = min(k, 4)
    if mv > 20:
        k = min(k, 10)
    src, unit = scene_sources(c, k, min(0.25, 1.2 / k))
    form, p, P = powers(rng, k, full=gen.coin(rng, 0.4))
    pv = np.real(np.diag(P))
    sigma = gen.noise_power(rng)
    n = gen.snapshot_count(rng, 1, 2, 10, 100, 12345)
    d0 = float(np.ravel(arr.d0)[0])
    c.note(idx=idx, d0=d0, wl=wl, k=k, mv=mv, unit=unit, loc=np.asarray(src.locations), p=pv, sigma=sigma, n=n, form=form)
    A = ref.steering(np.asarray(arr.element_locations, float), src, wl)
    vloc = (np.arange(mv) * d0).reshape((-1, 1))
    V = ref.steering(vloc, src, wl)
    DV = V * (1j * ref.d_phases_ff1d(vloc, src.locations, unit, wl).astype(float))
    cV = np.linalg.cond(V)
    if cV > 300 or pv.max() > 200 * pv.min():
        c.skip('ill-conditioned')
    S0, Pn = pinv_rank((V * pv) @ V.conj().T, k)
    Ms = []
    for i in range(k):
        Mv, h = influence(S0, V[:, i], DV[:, i], Pn)
        if h < 1e-6 * np.linalg.norm(DV[:, i]) ** 2:
            c.skip('ill-conditioned')
        # adjoint of the redundancy averaging followed by the Toeplitz augmentation
        M = np.zeros((m, m), dtype=complex)
        for l in range(-mv + 1, mv):
            g = np.trace(Mv, offset=l)            # sum of Mv[j, i] over i - j = l
            for a, b in lag[l]:
                M[b, a] = g / len(lag[l])
        Ms.append(M)
    R = (A * pv) @ A.conj().T + sigma * np.eye(m)
    # no cancellation to rounding level inside the projection
    w = np.linalg.eigvalsh(R)
    C = wishart_cov(R, Ms) / n
    if C.diagonal().min() < 1e-10 * (w[-1] / n) ** 1 * min(np.linalg.norm(M) ** 2 for M in Ms) * w[-1]:
        c.skip('degenerate')
    args = [arr, src, wl, p, sigma] + ([n] if n > 1 or gen.coin(rng) else [])
    X = ecov_coarray_music_1d(*args)
    snr = pv.min() / (pv.sum() + sigma)
    tol = 1e-7 + 1e-9 * cV ** 2 * pv.max() / pv.min() + 1e-12 / snr
    verify(c, X, C, tol, 'coarray')
    if gen.coin(rng, 0.2):
        modes(c, ecov_coarray_music_1d, args, X)
    if gen.coin(rng, 0.3):
        mult = int(rng.integers(2, 100))
        c.close(ecov_coarray_music_1d(arr, src, wl, p, sigma, n * mult) * mult, X, 'snapshots', rtol=1e-10, atol=1e-13 * np.abs(X).max())
    if not np.isscalar(p):
        c.close(ecov_coarray_music_1d(arr, src, wl, pv.tolist(), sigma, n), X, 'power-forms', rtol=1e-9, atol=1e-11 * np.abs(X).max())
    if cV < 50:
        try:
            B = crb_stouc_farfield_1d(arr, src, wl, pv, sigma, n)
        except np.linalg.LinAlgError:
            return
        d = np.sqrt(np.diag(C))
        G = (X - B) / np.outer(d, d)
        if np.all(np.isfinite(G)) and B.diagonal().min() > 0 and w[-1] / w[0] < 1e4:
            e = np.linalg.eigvalsh(0.5 * (G + G.T)).min()
            c.ok(e >= -1e-5, 'below-crb', lambda: 'coarray MUSIC covariance minus the CRB has eigenvalue {0}'.format(e))


@check.scenario(500)
def refusals(c):
    rng = c.rng
    wl = gen.wavelength(rng)
    m = int(rng.integers(3, 8))
    arr = AR.UniformLinearArray(m, wl / 2)
    k = int(rng.integers(1, m))
    c.note(m=m, k=k, wl=wl)
    src = S.FarField1DSourcePlacement(np.arcsin(gen.separated_sines(rng, k)))
    for f in (ecov_music_1d, ecov_coarray_music_1d):
        for o in (S.FarField2DSourcePlacement(rng.uniform(0, 1, (k, 2))), S.NearField2DSourcePlacement(rng.normal(size=(k, 2)))):
            c.refused(lambda: f(arr, o, wl, 1.0, 1.0), 'source-type', msg=f.__name__)
        for bad in (np.eye(k + 1), np.ones((k, k + 1)), np.ones((k + 1, k)), np.ones((k, k, k)), np.ones(k + 1), [1.0] * (k + 1), []):
            c.refused(lambda: f(arr, src, wl, bad, 1.0), 'power-size', msg=f.__name__)
        for extra in (0, 1, 3):
            many = S.FarField1DSourcePlacement(np.arcsin(gen.separated_sines(rng, m + extra)))
            c.refused(lambda: f(arr, many, wl, 1.0, 1.0), 'too-many', msg=f.__name__)
        for bad in ('DIAG', 'mean', 1, None):
            c.refused(lambda: f(arr, src, wl, 1.0, 1.0, 5, return_mode=bad), 'mode-unknown', msg=f.__name__)
        c.eq(np.shape(f(arr, src, wl, 1.0, 1.0)), (k, k), 'after-refusal')
        full = S.FarField1DSourcePlacement(np.arcsin(gen.separated_sines(rng, m - 1)))
        X = f(arr, full, wl, 1.0, 1.0)
        c.finite(X, 'largest')
    # sparse arrays: the limit is the virtual array, not the physical one
    sp = AR.NestedArray(int(rng.integers(1, 4)), int(rng.integers(2, 4)), wl / 2)
    idx = sorted(np.asarray(sp.element_indices).ravel().tolist())
    diffs = {a - b for a in idx for b in idx}
    mv = 0
    while mv in diffs:
        mv += 1
    big = S.FarField1DSourcePlacement(np.arcsin(gen.separated_sines(rng, mv - 1)))
    c.finite(ecov_coarray_music_1d(sp, big, wl, 1.0, 1.0), 'largest')
    for extra in (0, 1):
        many = S.FarField1DSourcePlacement(np.arcsin(gen.separated_sines(rng, mv + extra)))
        c.refused(lambda: ecov_coarray_music_1d(sp, many, wl, 1.0, 1.0), 'too-many')
    if len(idx) <= mv - 1:
        c.refused(lambda: ecov_music_1d(sp, big, wl, 1.0, 1.0), 'too-many')
    # imperfect, planar and unstructured arrays have no usable difference coarray
    pd = gen.perturbation_dict(rng, m, wl, kinds=[gen.pick(rng, 'location_errors', 'gain_errors', 'phase_errors', 'mutual_coupling')])
    one = S.FarField1DSourcePlacement([0.1])
    bad = AR.UniformLinearArray(m, wl / 2, perturbations=pd)
    c.refused(lambda: ecov_coarray_music_1d(bad, one, wl, 1.0, 1.0), 'perturbed')
    for bad in (AR.UniformCircularArray(m, wl), AR.UniformRectangularArray(2, m, wl / 2), AR.ArrayDesign(np.arange(m).reshape((-1, 1)) * wl / 2, 'a')):
        c.refused(lambda: ecov_coarray_music_1d(bad, one, wl, 1.0, 1.0), 'coarray-type')
    for bad in ('some', 'All', 1):
        c.refused(lambda: ecov_music_1d(arr, src, wl, 1.0, 1.0, perturbations=bad), 'selection')


history.register(check, ('perf',), ())
