import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.array_elements as EL
from doatools.estimation.beamforming import BartlettBeamformer, MVDRBeamformer, f_bartlett, f_mvdr
from doatools.estimation.music import MUSIC, f_music
from doatools.estimation.min_norm import MinNorm

check = Check('C11',
              'all four estimators for random (perturbed) arrays, grids of all kinds/units and Hermitian covariances of varied '
              'conditioning, scale, realness and memory layout, with and without caching, repeated calls on one estimator; '
              'non-trivial = a whole spectrum was compared with the formula evaluated with reference steering vectors',
              ['errors are bounded by first-order perturbation theory: condition number for MVDR, eigenvalue gap for the '
               'subspace methods (cases with a gap below 1e-6 of the largest eigenvalue are out of domain)'])

EST = {'bartlett': BartlettBeamformer, 'mvdr': MVDRBeamformer, 'music': MUSIC, 'minnorm': MinNorm}


def expected(name, A, dA, R, k):
    """(value v, tolerance) for v = spectrum (Bartlett) or 1/spectrum (others)."""
    m = A.shape[0]
    an = np.linalg.norm(A, axis=0)
    da = np.linalg.norm(dA, axis=0)
    u = 64 * m * ref.EPS
    if name == 'bartlett':
        v = np.real(np.einsum('ij,ik,kj->j', A.conj(), R, A))
        nr = np.linalg.norm(R, 2)
        return v, u * nr * an ** 2 + 2 * nr * an * da
    if name == 'mvdr':
        w, V = ref.eig_desc(R)
        v = ((np.abs(V.conj().T @ A) ** 2) / w[:, None]).sum(0)
        cond = w[0] / w[-1]
        return v, (u * cond * an ** 2 + 2 * an * da) / w[-1]
    w, V = ref.eig_desc(R)
    P, gap = V[:, k:] @ V[:, k:].conj().T, w[k - 1] - w[k]
    d = u * w[0] / gap + 1e-14
    if name == 'music':
        v = (np.abs(V[:, k:].conj().T @ A) ** 2).sum(0)
        e = an * d + da
        return v, 2 * np.sqrt(np.maximum(v, 0)) * e + e ** 2 + 1e-13 * v
    p11 = float(np.real(P[0, 0]))
    g = P[:, 0] / p11
    y = np.abs(g.conj() @ A)
    e = an * 8 * d / p11 ** 2 + np.linalg.norm(g) * da
    return y ** 2, 2 * y * e + e ** 2 + 1e-13 * y ** 2


def in_domain(name, R, k):
    w, V = ref.eig_desc(R)
    if name == 'mvdr':
        return w[-1] > 0 and w[0] / w[-1] < 1e9
    if name in ('music', 'minnorm'):
        if w[k - 1] - w[k] < 1e-6 * np.abs(w).max():
            return False
        if name == 'minnorm':
            return float((np.abs(V[0, k:]) ** 2).sum()) > 1e-3
    return True


def verify(c, name, sp, A, dA, R, k, shape, tag):
    v, tol = expected(name, A, dA, np.array(R), k)
    c.eq(tuple(sp.shape), tuple(shape), 'spectrum-shape', tag)
    c.eq(sp.dtype.kind, 'f', 'spectrum-real', tag)
    s = sp.reshape(-1)
    if name == 'bartlett':
        c.close(s, v, name, atol=tol, rtol=0, msg=tag)
        return
    c.ok(bool(np.all(s > 0)), name + '-positive', tag)
    with np.errstate(all='ignore'):
        inv = 1.0 / s
    c.close(inv, v, name, atol=tol, rtol=1e-12, msg=tag)


def setting(c, kind=None, max_size=8, smallest=2):
    rng = c.rng
    wl = float(10 ** rng.uniform(-2, 2))
    kind = kind or gen.pick(rng, 'ff1d', 'ff1d', 'ff2d', 'nf2d')
    perts = {}
    shape = rng.normal(size=3)
    noniso = gen.coin(rng, 0.15)

    def kw(m):
        if gen.coin(rng, 0.6):
            perts.update(gen.perturbation_dict(rng, m, wl))
        d = {'perturbations': dict(perts)}
        if noniso:
            d['element'] = EL.CustomNonisotropicSensor(lambda r, az, el, p: 1.5 + 0.4 * np.cos(az - shape[0]) * np.cos(el) + 0.3 * np.sin(el))
        return d

    arr = gen.array(rng, wl, kw=kw, max_size=max_size)
    if arr.size < smallest:
        c.skip('at least two sensors are needed')
    grid = gen.grid(rng, kind, wl)
    src = grid.source_placement
    plist = [(n, v, kn) for n, (v, kn) in perts.items()]
    known = ref.select(plist, 'known')
    if noniso:
        # reference: response applied before the other imperfections
        from checks.c04 import spherical
        loc = arr.element_locations.astype(float)
        for n, v, _ in known:
            if n == 'location_errors':
                loc = ref.apply_location_errors(loc, v)
        r, az, el = spherical(loc, src)
        F = 1.5 + 0.4 * np.cos(az - shape[0]) * np.cos(el) + 0.3 * np.sin(el)
        A, dA = F * ref.steering(loc, src, wl), 3 * ref.steering_tol(loc, src, wl) + 1e-11
        for n, v, _ in known:
            v = np.asarray(v)
            if n == 'location_errors':
                continue
            T = np.diag(1 + v) if n == 'gain_errors' else (np.diag(np.exp(1j * v)) if n == 'phase_errors' else v)
            A, dA = T @ A, np.abs(T) @ dA
    else:
        A, dA, _ = ref.perturbed_steering(arr.element_locations, known, src, wl)
    c.note(array=type(arr).__name__, loc=arr.element_locations, wl=wl, kind=kind, unit=grid.units[0],
           axes=[np.asarray(a) for a in grid.axes], perts={n: [v, kn] for n, (v, kn) in perts.items()}, noniso=noniso)
    if float(dA.max()) > 1e-7:
        c.skip('phase too large')
    return rng, wl, arr, grid, A, dA


def run(c, name):
    rng, wl, arr, grid, A, dA = setting(c, smallest=1 if name in ('bartlett', 'mvdr') else 2)
    m = arr.size
    kw = gen.pick(rng, {}, {'enable_caching': True}, {'enable_caching': False})
    est = EST[name](arr, wl, grid, **kw)
    calls = []
    for call in range(int(rng.integers(1, 4))):
        R = gen.hermitian(rng, m)
        if gen.coin(rng, 0.2):
            # few strong sources, weak noise
            S = A[:, rng.integers(0, A.shape[1], int(rng.integers(1, max(m, 2))))]
            R = (S * 10 ** rng.uniform(-1, 1, S.shape[1])) @ S.conj().T + np.eye(m) * float(10 ** rng.uniform(-7, 0))
            R = (R + R.conj().T) / 2 * float(10 ** rng.uniform(-3, 3))
        if name == 'bartlett' and gen.coin(rng, 0.3):
            X = gen.crandn(rng, m, max(1, m // 2))
            R = X @ X.conj().T
            R = (R + R.conj().T) / 2
        if name in ('bartlett', 'mvdr') and gen.coin(rng, 0.08):
            # single precision covariance, double precision steering vectors
            Q = np.asarray(R).astype('c8')
            if np.all(np.isfinite(Q)) and np.abs(Q).min() > 1e-30:
                R = Q
        k = int(rng.integers(1, max(m, 2)))
        if not in_domain(name, np.asarray(R).astype(complex), k):
            continue
        Rl = gen.relayout(rng, R)
        R = np.asarray(R).astype(complex)
        opt = {'return_spectrum': True}
        if gen.coin(rng, 0.2):
            opt.update(refine_estimates=True, refinement_iters=1, refinement_density=2)
        r = est.estimate(Rl, gen.count(rng, k), **opt)
        c.eq(len(r), 3, 'result-structure')
        calls.append([R, k])
        verify(c, name, r[2], A, dA, R, k, grid.shape, 'call {0}'.format(call))
    c.note(calls=calls)
    if not calls:
        c.skip('ill-conditioned covariances')


@check.scenario(2500, big=True)
def bartlett(c):
    run(c, 'bartlett')


@check.scenario(2500, big=True)
def mvdr(c):
    run(c, 'mvdr')


@check.scenario(2500, big=True)
def music(c):
    run(c, 'music')


@check.scenario(2500, big=True)
def minnorm(c):
    run(c, 'minnorm')


@check.scenario(1200, big=True)
def functions(c):
    """The exported spectrum functions on arbitrary matrices."""
    rng = c.rng
    m, n = gen.size(rng, 1, 12), gen.size(rng, 1, 60)
    A = gen.crandn(rng, m, n) * float(10 ** rng.uniform(-3, 3))
    if gen.coin(rng, 0.2):
        A = A.real.copy()
    R = gen.hermitian(rng, m)
    k = int(rng.integers(1, m)) if m > 1 else 0
    c.note(A=A, R=R, k=k)
    z = np.zeros(A.shape)
    Al, Rl = gen.relayout(rng, A), gen.relayout(rng, R)
    verify(c, 'bartlett', f_bartlett(Al, Rl), A, z, R, k, (n,), '')
    if in_domain('mvdr', R, k):
        verify(c, 'mvdr', f_mvdr(Al, Rl), A, z, R, k, (n,), '')
    if m > 1:
        w, V = ref.eig_desc(R)
        U, _ = np.linalg.qr(gen.crandn(rng, m - k, m - k))
        En = V[:, k:] @ U          # any orthonormal basis
        sp = f_music(Al, gen.relayout(rng, En))
        v = np.real(np.einsum('ij,ik,kj->j', A.conj(), En @ En.conj().T, A))
        c.close(1 / sp, v, 'music-function', rtol=1e-10, atol=1e-13 * np.abs(A).max() ** 2)


@check.scenario(900, big=True)
def relations(c):
    """Scaling, layout and caching relations between executions, at tight tolerances
    where both sides see the same numbers."""
    rng, wl, arr, grid, A, dA = setting(c)
    m = arr.size
    R = gen.hermitian(rng, m, gen.pick(rng, 'wishart', 'wide'))
    k = int(rng.integers(1, m))
    c.note(R=R, k=k)
    for name in EST:
        if not in_domain(name, R, k):
            continue
        a = EST[name](arr, wl, grid).estimate(R, k, return_spectrum=True)[2]
        b = EST[name](arr, wl, grid, enable_caching=False).estimate(np.asfortranarray(R), k, return_spectrum=True)[2]
        e = EST[name](arr, wl, grid).estimate(R * 7.0, k, return_spectrum=True)[2]
        s = 7.0 if name in ('bartlett', 'mvdr') else 1.0
        v, tol = expected(name, A, 0 * dA, R, k)
        f = (lambda x: x.reshape(-1)) if name == 'bartlett' else (lambda x: 1 / x.reshape(-1))
        c.close(f(b), f(a), 'layout-and-caching', atol=2 * tol, rtol=1e-11)
        c.close(f(e / s), f(a), 'scaling', atol=2 * tol, rtol=1e-11)


history.register(check, ('grid',), ('bartlett', 'mvdr', 'music', 'minnorm'))
