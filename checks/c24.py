import numpy as np
from vlib import gen, ref
from vlib.core import Check
import doatools.model.arrays as AR
import doatools.model.sources as S
import doatools.estimation.grid as G
from doatools.model.signals import ComplexStochasticSignal
from doatools.model.snapshots import get_narrowband_snapshots
from doatools.model.coarray import WeightFunction1D
from doatools.estimation.beamforming import MVDRBeamformer, BartlettBeamformer
from doatools.estimation.music import MUSIC, RootMUSIC1D
from doatools.estimation.min_norm import MinNorm
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.coarray import CoarrayACMBuilder1D
from doatools.estimation.ml import AMLEstimator, CMLEstimator, WSFEstimator
from doatools.estimation.source_number import mdl, aic
from doatools.performance.mse import ecov_music_1d, ecov_coarray_music_1d
from doatools.performance.crb import crb_sto_farfield_1d, crb_stouc_farfield_1d

check = Check('C24',
              'whole pipelines: random arrays in 1D to 3D with known or unknown imperfections, every source type and unit, exact and '
              'simulated noise-free covariances with sources on grid nodes, coarray processing with more sources than sensors, Monte '
              'Carlo runs of 300 to 1500 trials against the error formulas; non-trivial = the set of estimated locations was compared '
              'with the set of true ones, or normalised squared errors were pooled and tested',
              ['in domain when the reference spectrum (from reference steering vectors) separates the true nodes from all others',
               'Monte Carlo thresholds: 6.5 standard deviations plus 10 to 20 % for the finite-sample bias of the asymptotic formulas'])

EST = {'mvdr': MVDRBeamformer, 'music': MUSIC, 'minnorm': MinNorm}


def ref_spectrum(name, A, R, k):
    w, V = ref.eig_desc(R)
    if name == 'mvdr':
        return 1 / np.real(np.sum((np.abs(V.conj().T @ A) ** 2) / w[:, None], axis=0))
    En = V[:, k:]
    if name == 'music':
        d = np.sum(np.abs(En.conj().T @ A) ** 2, axis=0)
    else:
        Pn = En @ En.conj().T
        d = np.abs(A.conj().T @ (Pn[:, 0] / np.real(Pn[0, 0]))) ** 2
    return 1 / np.maximum(d, 1e-14 * np.abs(A).max() ** 2)


def pick_nodes(rng, shape, k, apart):
    """k interior nodes, no two of them closer than `apart` cells."""
    out = []
    for _ in range(200):
        p = [int(rng.integers(1, s - 1)) for s in shape]
        if all(max(abs(a - b) for a, b in zip(p, q)) >= apart for q in out):
            out.append(p)
            if len(out) == k:
                return out
    return None


@check.scenario(4000, big=True)
def exact_on_grid(c):
    rng = c.rng
    wl = gen.wavelength(rng, False)
    kind = gen.pick(rng, 'ff1d', 'ff1d', 'ff2d', 'nf2d')
    known = gen.coin(rng, 0.7)
    perts = {}

    def kw(m):
        perts.clear()
        if gen.coin(rng, 0.75):
            perts.update(gen.perturbation_dict(rng, m, wl, known=known))
        return {'perturbations': dict(perts)}
    for _ in range(80):
        arr = gen.array(rng, wl, ndim=None if kind != 'ff1d' else gen.pick(rng, 1, 1, 2, 3), kw=kw, max_size=9, ambiguous=False)
        if arr.size >= 2:
            break
    else:
        c.skip('size')
    m = arr.size
    unit = None
    if kind == 'ff1d':
        unit = gen.pick(rng, 'rad', 'deg', 'sin')
        f = gen.LIMITS[unit] * 0.95
        n = int(rng.integers(9, 90))
        g = G.FarField1DSearchGrid(-f, f, n, unit=unit)
        shape = (n,)
    elif kind == 'ff2d':
        unit = gen.pick(rng, 'rad', 'deg')
        f = np.pi / 180 if unit == 'rad' else 1.0
        shape = tuple(int(v) for v in rng.integers(6, 16, 2))
        a0 = rng.uniform(-170, 20)
        g = G.FarField2DSearchGrid((a0 * f, 5 * f), ((a0 + rng.uniform(60, 150)) * f, 75 * f), shape, unit=unit)
    else:
        shape = tuple(int(v) for v in rng.integers(6, 14, 2))
        ext = float(np.abs(np.asarray(arr.element_locations, float)).max()) + wl
        g = G.NearField2DSearchGrid((-2 * ext, 0.5 * ext), (2 * ext, 3 * ext), shape)
    k = int(rng.integers(1, m))
    if gen.coin(rng, 0.4):
        k = min(k, 3)
    nodes = pick_nodes(rng, shape, k, 2)
    if nodes is None:
        c.skip('no room')
    idx = np.ravel_multi_index(tuple(np.array(nodes).T), shape)
    allsrc = g.source_placement
    truth = np.asarray(allsrc.locations, float)[idx]
    if kind == 'ff1d':
        src = S.FarField1DSourcePlacement(truth, unit)
    elif kind == 'ff2d':
        src = S.FarField2DSourcePlacement(truth, unit)
    else:
        src = S.NearField2DSourcePlacement(truth)
    plist = [(q, v, kn) for q, (v, kn) in perts.items()]
    # the manifold an estimator must use: known imperfections only
    A, _, _ = ref.perturbed_steering(np.asarray(arr.element_locations, float), ref.select(plist, 'known'), allsrc, wl)
    via = gen.pick(rng, 'formula', 'formula', 'simulate') if known or not perts else 'formula'
    P = gen.source_cov(rng, k)
    sigma = float(10 ** rng.uniform(-6, -2))
    c.note(m=m, k=k, kind=kind, unit=unit, shape=shape, wl=wl, known=known, perts=list(perts), via=via, nodes=nodes, sigma=sigma, P=P)
    if via == 'formula':
        Q = A[:, idx] @ P @ A[:, idx].conj().T
        R = Q + sigma * np.trace(Q).real / m * np.eye(m)
    else:
        n_snap = int(rng.integers(4 * k, 12 * k + 20))
        Y, Rl = get_narrowband_snapshots(arr, src, wl, ComplexStochasticSignal(k, P), None, n_snap, True)
        c.close(Rl, Y @ Y.conj().T / n_snap, 'sample-covariance', rtol=1e-10, atol=1e-12 * np.abs(Rl).max())
        # every snapshot lies in the span of the true steering vectors
        U, _, _ = np.linalg.svd(A[:, idx], full_matrices=True)
        c.close(U[:, k:].conj().T @ Y / np.abs(Y).max(), np.zeros((m - k, n_snap)), 'span', rtol=0, atol=1e-9 * m)
        R = Rl + sigma * np.trace(Rl).real / m * np.eye(m)
    R = 0.5 * (R + R.conj().T) * gen.power_scale(rng)
    w, _ = ref.eig_desc(R)
    if w[k - 1] - w[k] < 1e-5 * w[0] or w[k - 1] < 3 * w[k]:
        c.skip('ill-conditioned')
    tested = 0
    for name in EST:
        sp = ref_spectrum(name, A, R, k)
        rest = np.delete(sp, idx)
        if name == 'minnorm' and np.sum(np.abs(ref.eig_desc(R)[1][0, k:]) ** 2) < 1e-3:
            continue                               # the first sensor (almost) does not see the noise subspace
        ratio = {'mvdr': 1.5, 'music': 1e3, 'minnorm': 1e3}[name]
        if sp[idx].min() < ratio * rest.max():
            continue
        tested += 1
        e = EST[name](arr, wl, g, **gen.pick(rng, {}, {'enable_caching': True}))
        ok, est = e.estimate(gen.relayout(rng, R), k)
        c.ok(ok, name + '-resolved')
        got = np.asarray(est.locations, float)
        c.ok(type(est) is type(src) and est.units == src.units, 'type')
        c.eq(got.shape, truth.shape, 'count')
        order = (lambda z: z[np.lexsort(np.atleast_2d(z.T)[::-1])])
        c.close(order(got), order(truth), name + '-identified', rtol=1e-9, atol=1e-9 * np.abs(truth).max())
        if name == 'music' and gen.coin(rng, 0.2):
            ok, est = e.estimate(R, k, refine_estimates=True)
            step = np.array([np.abs(np.diff(a)).max() for a in g.axes])
            step = step[0] if kind == 'ff1d' else step
            d = np.abs(order(np.asarray(est.locations, float)) - order(truth)) / step
            c.ok(ok and d.max() <= 1.0, 'refined-near', lambda: 'off by {0} cells'.format(d.max()))
    if not tested:
        c.skip('not separable on this grid')


@check.scenario(1200, big=True)
def coarray_exact(c):
    """More sources than sensors from the exact covariance of a sparse array."""
    rng = c.rng
    wl = gen.wavelength(rng, False)
    d0 = wl / 2 * float(rng.uniform(0.7, 1))
    kind = gen.pick(rng, 'nested', 'coprime', 'mrla', 'super')
    if kind == 'nested':
        arr = AR.NestedArray(int(rng.integers(1, 5)), int(rng.integers(1, 5)), d0)
    elif kind == 'coprime':
        arr = AR.CoPrimeArray(*gen.pick(rng, (2, 3), (3, 4), (3, 5)), d0, gen.pick(rng, 'm', '2m'))
    elif kind == 'mrla':
        arr = AR.MinimumRedundancyLinearArray(int(rng.integers(2, 8)), d0)
    else:
        arr = AR.GridBasedArrayDesign(np.sort(rng.choice(np.arange(10), size=6, replace=False)).reshape((-1, 1)), d0=d0, name='g')
    pos = np.asarray(arr.element_indices).ravel().tolist()
    diffs = {a - b for a in pos for b in pos}
    mv = 0
    while mv in diffs:
        mv += 1
    if mv < 2:
        c.skip('no virtual array')
    k = int(rng.integers(1, mv))
    lim = 0.95
    s = gen.separated_sines(rng, k, -lim, lim, min(1.4 / mv, 1.8 / max(k, 1)))
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    conv = {'rad': np.arcsin, 'deg': lambda v: np.rad2deg(np.arcsin(v)), 'sin': lambda v: v}[unit]
    src = S.FarField1DSourcePlacement(conv(s), unit)
    p = rng.uniform(0.5, 2, k)
    sigma = float(10 ** rng.uniform(-4, 1))
    unit_power = gen.power_scale(rng)
    p, sigma = p * unit_power, sigma * unit_power
    A = ref.steering(np.asarray(arr.element_locations, float), src, wl)
    R = (A * p) @ A.conj().T + sigma * np.eye(len(pos))
    V = np.exp(2j * np.pi * d0 / wl * np.outer(np.arange(mv), s))
    c.note(kind=kind, pos=pos, k=k, s=s, unit=unit, p=p, sigma=sigma, wl=wl, d0=d0)
    if np.linalg.cond(V) > 100 or p.sum() / sigma > 1e6:
        c.skip('ill-conditioned')
    b = CoarrayACMBuilder1D(arr)
    ula = b.get_virtual_ula()
    c.eq((ula.size, b.output_size), (mv, mv), 'virtual-size')
    method = gen.pick(rng, 'ss', 'da')
    Rv = b.transform(R, method) if gen.coin(rng) else b(R, method)
    ok, est = RootMUSIC1D(wl).estimate(Rv, k, d0, unit=unit)
    c.ok(ok, 'resolved')
    c.close(np.sort(est.locations), conv(s), 'root-music', rtol=0, atol=2e-4 * gen.LIMITS[unit] / np.sqrt(1 - lim ** 2))
    ok, est = Esprit1D(wl).estimate(Rv, k, d0, unit=unit)
    c.ok(ok, 'resolved')
    c.close(np.sort(est.locations), conv(s), 'esprit', rtol=0, atol=1e-6 * gen.LIMITS[unit] / np.sqrt(1 - lim ** 2))
    axis = np.unique(np.concatenate([conv(s), conv(np.linspace(-0.999, 0.999, 60))]))
    keep = [v for v in axis if v in conv(s) or np.abs(v - conv(s)).min() > 0.02 * gen.LIMITS[unit]]
    g = G.FarField1DSearchGrid(axes=(np.array(keep),), unit=unit)
    for e in (MUSIC(ula, wl, g), MinNorm(ula, wl, g)):
        Av = np.exp(2j * np.pi * d0 / wl * np.outer(np.arange(mv), np.array([{'rad': np.sin, 'deg': lambda v: np.sin(np.deg2rad(v)), 'sin': lambda v: v}[unit](v) for v in keep])))
        name = 'music' if isinstance(e, MUSIC) else 'minnorm'
        sp = ref_spectrum(name, Av, (V * p) @ V.conj().T + sigma * np.eye(mv), k)
        hit = np.isin(np.array(keep), conv(s))
        inner = hit[1:-1]
        if inner.sum() < k or np.any(hit[1:] & hit[:-1]) or sp[hit].min() < 1e3 * sp[~hit].max():
            continue
        ok, est = e.estimate(Rv, k)
        c.ok(ok, 'resolved')
        c.close(np.sort(est.locations), conv(s), name, rtol=0, atol=1e-12)


@check.scenario(300)
def unknown_imperfections(c):
    """The data contain imperfections declared unknown, the estimators do not know them."""
    rng = c.rng
    wl = 1.0
    m = int(rng.integers(5, 10))
    k = int(rng.integers(1, 3))
    perts = gen.perturbation_dict(rng, m, wl, kinds=[gen.pick(rng, 'location_errors', 'phase_errors', 'gain_errors', 'mutual_coupling')])
    name, (v, _) = list(perts.items())[0]
    arrs = {kn: AR.UniformLinearArray(m, wl / 2, perturbations={name: (v, kn)}) for kn in (True, False)}
    plain = AR.UniformLinearArray(m, wl / 2)
    src = S.FarField1DSourcePlacement(np.arcsin(gen.separated_sines(rng, k, -0.8, 0.8, 0.5)))
    g = G.FarField1DSearchGrid(size=91)
    n = 50
    c.note(m=m, k=k, name=name, v=v, src=np.asarray(src.locations))
    A, _, _ = ref.perturbed_steering(np.asarray(plain.element_locations, float), [(name, v, False)], src, wl)
    Q = np.linalg.qr(A)[0]
    for kn, a in arrs.items():
        Y = get_narrowband_snapshots(a, src, wl, ComplexStochasticSignal(k), None, n)
        c.close(Y - Q @ (Q.conj().T @ Y), np.zeros((m, n)), 'contains-imperfections', rtol=0, atol=1e-10 * np.abs(Y).max())
    R = gen.hermitian(rng, m, 'wishart', 1.0)
    # an identity coupling matrix, or one a multiple of it, need not change a spectrum
    harmless = name == 'mutual_coupling' and np.allclose(v, np.eye(m) * v[0, 0])
    for cls in (BartlettBeamformer, MVDRBeamformer, MUSIC, MinNorm):
        ref_sp = cls(plain, wl, g).estimate(R, k, return_spectrum=True)[2]
        c.close(cls(arrs[False], wl, g).estimate(R, k, return_spectrum=True)[2], ref_sp, 'ignores-unknown', rtol=1e-8)
        sp = cls(arrs[True], wl, g).estimate(R, k, return_spectrum=True)[2]
        if harmless:
            continue
        c.ok(np.abs(sp / ref_sp - 1).max() > 1e-9, 'uses-known', lambda: '{0}: known {1} have no effect'.format(cls.__name__, name))
    x0 = S.FarField1DSourcePlacement(np.asarray(src.locations) + 0.01)
    for cls in (AMLEstimator, CMLEstimator, WSFEstimator):
        a = cls(plain, wl).estimate(R, x0)
        b = cls(arrs[False], wl).estimate(R, x0)
        c.eq(a[0], b[0], 'ignores-unknown', cls.__name__)
        if a[0]:
            c.close(b[1].locations, a[1].locations, 'ignores-unknown', rtol=0, atol=1e-6, msg=cls.__name__)


def pooled(c, E, C, mech, bias):
    """Sum over the trials of e^T C^-1 e is chi-square with trials * k degrees of freedom."""
    L, k = E.shape
    q = float(np.sum(E * np.linalg.solve(C, E.T).T)) / (L * k)
    sd = np.sqrt(2 / (L * k))
    c.ok(1 - bias - 6.5 * sd <= q <= 1 + bias + 6.5 * sd, mech, lambda: 'pooled normalised squared error {0} over {1} values (sd {2})'.format(q, L * k, sd))
    v = np.mean(E ** 2, axis=0) / np.diag(C)
    sd = np.sqrt(2 / L)
    c.ok(np.all((v >= 1 - bias - 7 * sd) & (v <= 1 + bias + 7 * sd)), mech, lambda: 'per-source ratios {0} (sd {1})'.format(v, sd))


def signal(rng, k):
    p = rng.uniform(0.5, 2, k)
    r = rng.random()
    if r < 0.4:
        return p, np.diag(p), ComplexStochasticSignal(k, p)
    P = gen.source_cov(rng, k, 'full')
    return P, P, ComplexStochasticSignal(k, P)


@check.scenario(16)
def rmse_root_music(c):
    rng = c.rng
    wl = gen.wavelength(rng, False)
    m = int(rng.integers(4, 10))
    k = int(rng.integers(1, 4))
    d0 = wl / 2 * float(rng.uniform(0.6, 1))
    arr = AR.UniformLinearArray(m, d0)
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    conv = {'rad': np.arcsin, 'deg': lambda v: np.rad2deg(np.arcsin(v)), 'sin': lambda v: v}[unit]
    s = gen.separated_sines(rng, k, -0.8, 0.8, min(0.5, 1.5 / k))
    src = S.FarField1DSourcePlacement(conv(s), unit)
    p, P, sig = signal(rng, k)
    if np.linalg.cond(P) > 10:
        c.skip('nearly coherent')
    sigma = float(10 ** rng.uniform(-2, -0.3))
    C1 = ecov_music_1d(arr, src, wl, p, sigma, 1)
    slope = {'rad': 1.0, 'deg': 180 / np.pi, 'sin': 1.0}[unit]
    target = 0.02 / m * slope                      # required standard deviation
    n = int(np.clip(np.diag(C1).max() / target ** 2, 100, 3000))
    if np.diag(C1).max() / n > (3 * target) ** 2:
        c.skip('not asymptotic')
    L = 700
    noise = ComplexStochasticSignal(m, sigma)
    root = RootMUSIC1D(wl)
    E = np.zeros((L, k))
    right = 0
    for i in range(L):
        _, R = get_narrowband_snapshots(arr, src, wl, sig, noise, n, True)
        ok, est = root.estimate(R, k, d0, unit=unit)
        c.ok(ok, 'resolved')
        E[i] = np.sort(est.locations) - conv(s)
        right += int(mdl(R, n)) == k
    c.note(m=m, k=k, unit=unit, s=s, P=P, sigma=sigma, n=n, E=E)
    C = C1 / n
    c.close(ecov_music_1d(arr, src, wl, p, sigma, n), C, 'snapshots', rtol=1e-9)
    pooled(c, E, C, 'rmse-music', 0.12)
    B = crb_sto_farfield_1d(arr, src, wl, p, sigma, n)
    tot = np.mean(np.sum(E ** 2, axis=1) / np.trace(B))
    c.ok(tot >= 0.9 - 7 * np.sqrt(2 / L), 'beats-crb', lambda: 'mean squared error / CRB = {0}'.format(tot))
    if n * k >= 300 and k <= m - 2:
        w = np.linalg.eigvalsh(ref.steering(np.asarray(arr.element_locations, float), src, wl) @ P @
                               ref.steering(np.asarray(arr.element_locations, float), src, wl).conj().T)[m - k] / sigma
        if w * np.sqrt(n) > 60:
            c.ok(right >= 0.75 * L, 'source-number', lambda: 'MDL right in {0} of {1}'.format(right, L))


@check.scenario(16)
def rmse_coarray(c):
    rng = c.rng
    wl = gen.wavelength(rng, False)
    d0 = wl / 2 * float(rng.uniform(0.8, 1))
    arr = gen.pick(rng, AR.NestedArray(2, 2, d0), AR.NestedArray(2, 3, d0), AR.CoPrimeArray(2, 3, d0), AR.MinimumRedundancyLinearArray(4, d0),
                   AR.MinimumRedundancyLinearArray(5, d0))
    m = arr.size
    k = gen.pick(rng, 1, 2, 3, m, m)
    b = CoarrayACMBuilder1D(arr)
    if k >= b.output_size:
        k = b.output_size - 1
    s = gen.separated_sines(rng, k, -0.8, 0.8, min(0.5, 1.5 / k))
    src = S.FarField1DSourcePlacement(s, 'sin')
    p = rng.uniform(0.7, 1.4, k)
    sigma = float(10 ** rng.uniform(-1.5, 0.3))
    C1 = ecov_coarray_music_1d(arr, src, wl, p, sigma, 1)
    n = int(np.clip(np.diag(C1).max() / (0.02 / b.output_size) ** 2, 200, 20000))
    if np.diag(C1).max() / n > (0.035 / b.output_size) ** 2:
        c.skip('not asymptotic')
    L = int(np.clip(4e6 / (n * m), 150, 600))
    sig, noise = ComplexStochasticSignal(k, p), ComplexStochasticSignal(m, sigma)
    root = RootMUSIC1D(wl)
    E = np.zeros((L, k))
    method = gen.pick(rng, 'ss', 'da')
    for i in range(L):
        _, R = get_narrowband_snapshots(arr, src, wl, sig, noise, n, True)
        ok, est = root.estimate(b(R, method), k, d0, unit='sin')
        c.ok(ok, 'resolved')
        E[i] = np.sort(est.locations) - s
    c.note(m=m, k=k, s=s, p=p, sigma=sigma, n=n, L=L, E=E, method=method)
    pooled(c, E, C1 / n, 'rmse-coarray', 0.15)
    B = crb_stouc_farfield_1d(arr, src, wl, p, sigma, n)
    tot = np.mean(np.sum(E ** 2, axis=1) / np.trace(B))
    c.ok(tot >= 0.9 - 7 * np.sqrt(2 / L), 'beats-crb', lambda: 'mean squared error / CRB = {0}'.format(tot))


@check.scenario(16)
def rmse_ml(c):
    """ML and WSF estimates attain the stochastic bound; arrays with known imperfections."""
    rng = c.rng
    wl = 1.0
    m = int(rng.integers(5, 9))
    k = int(rng.integers(1, 3))
    perts = gen.perturbation_dict(rng, m, wl, known=True, strength=0.6) if gen.coin(rng, 0.7) else {}
    arr = gen.pick(rng, lambda: AR.UniformLinearArray(m, wl / 2, perturbations=perts),
                   lambda: AR.UniformCircularArray(m, wl * 0.6, perturbations=perts))()
    s = gen.separated_sines(rng, k, -0.7, 0.7, 0.5)
    src = S.FarField1DSourcePlacement(np.arcsin(s))
    p, P, sig = signal(rng, k)
    if np.linalg.cond(P) > 10:
        c.skip('nearly coherent')
    sigma = float(10 ** rng.uniform(-2, -1))
    n = int(rng.integers(200, 600))
    B = crb_sto_farfield_1d(arr, src, wl, p, sigma, n)
    if np.diag(B).max() > (0.02 / m) ** 2:
        c.skip('not asymptotic')
    name, cls = gen.pick(rng, ('aml', AMLEstimator), ('wsf', WSFEstimator))
    est = cls(arr, wl)
    L = 120
    E = np.zeros((L, k))
    noise = ComplexStochasticSignal(m, sigma)
    # scipy's default gradient tolerance is absolute: start at the truth with tight options
    stalled = 0
    for i in range(L):
        _, R = get_narrowband_snapshots(arr, src, wl, sig, noise, n, True)
        ok, r = est.estimate(R, src, options={'ftol': 1e-14, 'gtol': 1e-9})[:2]
        if not ok:
            stalled += 1
            E[i] = np.nan
            continue
        E[i] = np.asarray(r.locations) - np.asarray(src.locations)
    c.note(m=m, k=k, name=name, perts=list(perts), s=s, P=P, sigma=sigma, n=n, E=E, stalled=stalled)
    if stalled > 0.2 * L:
        c.skip('the optimiser stalls at the tolerances of this case')
    pooled(c, E[~np.isnan(E[:, 0])], B, 'efficient-' + name, 0.2)


@check.scenario(16)
def rmse_grid_music(c):
    """Refined grid MUSIC on imperfect arrays: errors match the formula at growing numbers of snapshots."""
    rng = c.rng
    wl = 1.0
    m = int(rng.integers(5, 9))
    k = int(rng.integers(1, 3))
    perts = gen.perturbation_dict(rng, m, wl, known=True, strength=0.5) if gen.coin(rng, 0.8) else {}
    arr = gen.pick(rng, lambda: AR.UniformLinearArray(m, wl / 2, perturbations=perts),
                   lambda: AR.UniformCircularArray(m, wl * 0.5, perturbations=perts))()
    s = gen.separated_sines(rng, k, -0.7, 0.7, 0.6)
    src = S.FarField1DSourcePlacement(np.arcsin(s))
    p, P, sig = signal(rng, k)
    sigma = float(10 ** rng.uniform(-2, -1))
    if np.linalg.cond(P) > 10:
        c.skip('nearly coherent')
    g = G.FarField1DSearchGrid(size=361)
    est = MUSIC(arr, wl, g)
    noise = ComplexStochasticSignal(m, sigma)
    for n, L in ((100, 150), (1000, 100), (50000, 12)):
        C = ecov_music_1d(arr, src, wl, p, sigma, n)
        if np.diag(C).max() > (0.02 / m) ** 2 or np.diag(C).min() < 1e-9:
            continue
        E = np.zeros((L, k))
        for i in range(L):
            _, R = get_narrowband_snapshots(arr, src, wl, sig, noise, n, True)
            ok, r = est.estimate(R, k, refine_estimates=True, refinement_density=10, refinement_iters=4)
            c.ok(ok, 'resolved')
            E[i] = np.sort(r.locations) - np.asarray(src.locations)
        c.note(m=m, k=k, perts=list(perts), s=s, P=P, sigma=sigma, E=E)
        pooled(c, E, C, 'rmse-grid', 0.15)
