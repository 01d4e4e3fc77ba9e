import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.sources as S
from doatools.estimation.music import RootMUSIC1D
from doatools.estimation.esprit import Esprit1D

check = Check('C15',
              'exact covariances (built from reference steering vectors) of uniform linear arrays with 2..12 sensors, 1..m-1 sources, '
              'spacings up to the unambiguous limit, any wavelength, noise from zero, power ranges and correlations, all ESPRIT options; '
              'noisy covariances for the shape of the answer; refusals; non-trivial = recovered angles compared with the truth or refusal observed',
              ['tolerances grow with the condition numbers of the steering and source matrices; cases beyond 1e4 (eigenvalue gap '
               'ratio) are out of domain'])


def scene(c, method, max_m=12, displacement=1):
    rng = c.rng
    m = int(rng.integers(2, max_m + 1))
    disp = 1
    if method == 'esprit' and m > 2 and gen.coin(rng, 0.4):
        disp = int(rng.integers(1, m))
    kmax = m - 1 if method == 'root' else m - disp
    k = int(rng.integers(1, kmax + 1))
    if gen.coin(rng, 0.15):
        k = kmax
    wl = gen.wavelength(rng)
    default = gen.coin(rng, 0.35)
    d0 = wl / 2 if default else wl / 2 * gen.pick(rng, 1.0, float(rng.uniform(0.15, 1.0)), float(rng.uniform(1.0, 3.0)), 0.5)
    eff = d0 * disp
    umax = min(1.0, wl / (2 * eff))          # unambiguous sines
    # work in phase units so that the conditioning does not depend on the spacing
    w = 2 * np.pi * d0 / wl
    lim = umax * 0.97
    gap = max(0.25 * 2 * np.pi / m / w, 0.02 * umax)
    if gap * (k - 1) > 1.9 * lim:
        c.skip('sources do not fit')
    s = gen.separated_sines(rng, k, -lim, lim, min(gap, 1.8 * lim / max(k - 1, 1)))
    if gen.coin(rng, 0.1) and k % 2:
        s = s - s[k // 2]
        if np.abs(s).max() > lim:
            c.skip('range')
    Aex = ref.expj(ref.LD(1) * np.outer(np.arange(m), w * s))
    corr = gen.pick(rng, 'eq', 'diag', 'full', 'range')
    if corr == 'range':
        P = np.diag(10 ** rng.uniform(-2, 2, k)).astype(complex)
    else:
        P = gen.source_cov(rng, k, corr).astype(complex)
    sg = gen.pick(rng, 0.0, float(10 ** rng.uniform(-3, 1)), 1.0)
    R = Aex @ P @ Aex.conj().T + sg * np.eye(m)
    R = 0.5 * (R + R.conj().T) * (1.0 if gen.coin(rng, 0.7) else 10 ** rng.uniform(-6, 6))
    ev = np.linalg.eigvalsh(R)
    ratio = (ev[-1]) / max(ev[m - k] - ev[m - k - 1], 1e-300)
    cond = np.linalg.cond(Aex[:max(1, m - disp)])
    if ratio > 1e4 or cond > 1e3:
        c.skip('ill-conditioned')
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    c.note(m=m, k=k, wl=wl, d0=d0, disp=disp, s=s, P=corr, sigma=sg, unit=unit, ratio=ratio, cond=cond)
    return rng, m, k, wl, d0, disp, default, s, R, unit, ratio, cond, w


def verify(c, res, s, unit, atol_s, tag):
    c.ok(bool(res[0]), 'resolved', tag)
    est = res[1]
    c.ok(type(est) is S.FarField1DSourcePlacement, 'type')
    c.eq(est.units, (unit,), 'unit')
    x = np.asarray(est.locations)
    c.eq(x.shape, (len(s),), 'count', tag)
    c.eq(x.dtype.kind, 'f', 'real')
    c.finite(x, 'finite', tag)
    c.ok(bool(np.all(np.diff(x) >= 0)), 'sorted', lambda: '{0} {1}'.format(tag, x))
    got = {'sin': lambda v: v, 'rad': np.sin, 'deg': lambda v: np.sin(np.deg2rad(v))}[unit](x)
    c.close(got, s, 'recovered', rtol=0, atol=atol_s, msg=tag)
    ang = {'sin': lambda v: v, 'rad': np.arcsin, 'deg': lambda v: np.rad2deg(np.arcsin(v))}[unit](s)
    slope = {'sin': 1.0, 'rad': 1.0, 'deg': 57.3}[unit] / (1.0 if unit == 'sin' else np.sqrt(1 - np.minimum(1, np.abs(s) + atol_s) ** 2 + 1e-12))
    c.close(x, ang, 'recovered-angle', rtol=0, atol=2 * np.max(slope) * atol_s, msg=tag)


@check.scenario(3000, big=True)
def root_music(c):
    rng, m, k, wl, d0, _, default, s, R, unit, ratio, cond, w = scene(c, 'root')
    kw = {'unit': unit}
    if not default:
        kw['d0'] = d0
    elif gen.coin(rng):
        kw['d0'] = None
    if unit == 'rad' and gen.coin(rng):
        del kw['unit']
    r = RootMUSIC1D(wl).estimate(gen.relayout(rng, R), gen.count(rng, k), **kw)
    # double roots: errors of the order of the square root of the perturbation of the noise subspace
    tol = 2e-5 * np.sqrt(ratio) * max(1.0, cond) / w
    verify(c, r, s, unit, min(tol, 0.05 / w), 'root')


@check.scenario(3000, big=True)
def esprit(c):
    rng, m, k, wl, d0, disp, default, s, R, unit, ratio, cond, w = scene(c, 'esprit')
    kw = {'unit': unit, 'displacement': disp}
    if not default:
        kw['d0'] = d0
    if disp == 1 and gen.coin(rng):
        del kw['displacement']
    if gen.coin(rng, 0.8):
        kw['formulation'] = gen.pick(rng, 'ls', 'tls')
    wts = gen.pick(rng, 'omit', 'default', 'none', 'user', 'flat', 'integer', 'single')
    if wts == 'user':
        kw['row_weights'] = gen.relayout(rng, rng.uniform(0.3, 2, m - disp))
    elif wts == 'flat':
        kw['row_weights'] = np.ones(m - disp)
    elif wts == 'integer':
        kw['row_weights'] = gen.relayout(rng, rng.integers(1, 5, m - disp).astype(gen.pick(rng, 'i8', 'i4', 'i1', 'u1')))
    elif wts == 'single':
        kw['row_weights'] = rng.uniform(0.5, 2, m - disp).astype('f4')
    elif wts != 'omit':
        kw['row_weights'] = wts
    c.note(form=kw.get('formulation'), weights=wts)
    r = Esprit1D(wl).estimate(gen.relayout(rng, R), gen.count(rng, k), **kw)
    tol = 1e-11 * ratio * cond ** 2 * m ** 2 / (w * disp)
    verify(c, r, s, unit, min(tol + 1e-12, 0.05 / w), 'esprit')


@check.scenario(600, big=True)
def scaled_and_conjugated(c):
    """Scaling the covariance changes nothing; conjugating it mirrors the angles."""
    rng, m, k, wl, d0, _, default, s, R, unit, ratio, cond, w = scene(c, 'root')
    if np.abs(R).max() < 1e-3 or np.abs(R).max() > 1e3:
        c.skip('scale')
    for name, run in (('root', lambda Q: RootMUSIC1D(wl).estimate(Q, k, d0, 'sin')),
                      ('esprit', lambda Q: Esprit1D(wl).estimate(Q, k, d0, unit='sin'))):
        if name == 'esprit' and np.linalg.cond(ref.expj(np.outer(np.arange(m - 1), w * s))) > 1e3:
            continue
        tol = min(2e-5 * np.sqrt(ratio) * max(1.0, cond) / w, 0.05 / w)
        c.close(run(R * 16.0)[1].locations, s, 'scaling', rtol=0, atol=tol, msg=name)
        c.close(run(R.conj())[1].locations, np.sort(-s), 'conjugation', rtol=0, atol=tol, msg=name)


@check.scenario(250, big=True)
def real_covariance(c):
    """A real-valued covariance (dtype float): symmetric source pairs."""
    rng = c.rng
    m = int(rng.integers(5, 11))
    wl = gen.wavelength(rng, False)
    s0 = gen.separated_sines(rng, int(rng.integers(1, 3)), 0.1, 0.9, 0.3)
    s = np.sort(np.concatenate((-s0, s0)))
    A = ref.expj(np.pi * np.outer(np.arange(m), s))
    p = rng.uniform(0.5, 2, len(s0))
    P = np.concatenate((p[::-1], p))
    R = ((A * P) @ A.conj().T).real + 0.3 * np.eye(m)
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    c.note(m=m, s=s, unit=unit)
    verify(c, RootMUSIC1D(wl).estimate(R, len(s), unit=unit), s, unit, 1e-4, 'root-real')
    verify(c, Esprit1D(wl).estimate(R, len(s), unit=unit), s, unit, 1e-6, 'esprit-real')


def visible_esprit(R, k, wl, d0, form, wts):
    """Reference: do the estimated phases fit into the visible region?"""
    m = R.shape[0]
    _, E = np.linalg.eigh(R)
    Es = E[:, -k:]
    w = np.ones(m - 1) if wts == 'none' else np.sqrt(np.minimum(np.arange(1, m), np.arange(m - 1, 0, -1)))
    X, Y = w[:, None] * Es[:-1], w[:, None] * Es[1:]
    if form == 'ls':
        Phi = np.linalg.lstsq(X, Y, rcond=None)[0]
    else:
        _, _, Vh = np.linalg.svd(np.hstack((X, Y)))
        V = Vh.conj().T
        Phi = -V[:k, k:] @ np.linalg.inv(V[k:, k:])
    return np.abs(np.angle(np.linalg.eigvals(Phi))) * wl / (2 * np.pi * d0)


def visible_root(R, k, wl, d0):
    m = R.shape[0]
    _, E = np.linalg.eigh(R)
    C = E[:, :-k] @ E[:, :-k].conj().T
    z = np.roots([np.trace(C, i) for i in range(m - 1, -m, -1)])
    z = z[np.abs(z) < 1]
    z = z[np.argsort(-np.abs(z))][:k]
    return np.abs(np.angle(z)) * wl / (2 * np.pi * d0)


@check.scenario(1500, big=True)
def noisy(c):
    """Any resolved answer has k finite, sorted angles in range."""
    rng = c.rng
    m = int(rng.integers(2, 10))
    k = int(rng.integers(1, m))
    wl = gen.wavelength(rng, False)
    half = gen.coin(rng, 0.7)
    d0 = wl / 2 * (1.0 if half else float(rng.uniform(0.3, 2)))
    if gen.coin(rng):
        R = gen.hermitian(rng, m, 'wishart')
    else:
        n = int(rng.integers(m, 200))
        s = rng.uniform(-1, 1, k)
        A = ref.expj(2 * np.pi * d0 / wl * np.outer(np.arange(m), s))
        Y = A @ gen.crandn(rng, k, n) + gen.crandn(rng, m, n) * float(10 ** rng.uniform(-2, 1))
        R = Y @ Y.conj().T / n
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    method = gen.pick(rng, 'root', 'esprit')
    form, wts = gen.pick(rng, 'ls', 'tls'), gen.pick(rng, 'default', 'none')
    c.note(m=m, k=k, wl=wl, d0=d0, unit=unit, method=method, R=R, form=form, wts=wts)
    kw = {'unit': unit}
    if not half or gen.coin(rng):
        kw['d0'] = d0
    if method == 'esprit':
        kw.update(formulation=form, row_weights=wts)
    vis = visible_root(R, k, wl, d0) if method == 'root' else visible_esprit(R, k, wl, d0, form, wts)
    outside = d0 < wl / 2 * 0.999999 and (len(vis) < k or np.max(vis) > 0.999999)
    mech = 'invisible-region' if outside else 'finite'
    try:
        r = (RootMUSIC1D(wl) if method == 'root' else Esprit1D(wl)).estimate(R, k, **kw)
    except ValueError as ex:
        c.ok(False, mech if unit == 'sin' else 'exception', repr(ex))
    if not r[0]:
        c.ok(r[1] is None, 'unresolved-none')
        return
    x = np.asarray(r[1].locations)
    c.eq(x.shape, (k,), 'count')
    c.finite(x, mech)
    c.ok(bool(np.all(np.diff(x) >= 0)), 'sorted')
    c.ok(bool(np.all(np.abs(x) <= gen.LIMITS[unit] * (1 + 1e-12))), 'range')
    c.eq(r[1].units, (unit,), 'unit')


@check.scenario(800, big=True)
def weighted_noisy(c):
    """From covariances with errors the weights and the formulation matter: ESPRIT solves the problem
    it was asked to solve (reference: weighted LS / TLS through SVDs), whatever the type of the weights."""
    rng = c.rng
    m = int(rng.integers(3, 11))
    disp = int(rng.integers(1, m - 1)) if gen.coin(rng, 0.3) else 1
    k = int(rng.integers(1, max(2, min(4, m - disp))))
    wl = gen.wavelength(rng, False)
    d0 = wl / 2 / disp
    s = gen.separated_sines(rng, k, -0.8, 0.8, 0.3)
    n = int(rng.integers(2 * m, 100))
    A = ref.expj(2 * np.pi * d0 / wl * np.outer(np.arange(m), s))
    Y = A @ gen.crandn(rng, k, n) + gen.crandn(rng, m, n) * float(10 ** rng.uniform(-1.5, -0.3))
    R = Y @ Y.conj().T / n
    ev = np.linalg.eigvalsh(R)
    if ev[m - k] < 1.5 * ev[m - k - 1]:
        c.skip('no gap between the subspaces')
    mr = m - disp
    form = gen.pick(rng, 'ls', 'tls')
    what = gen.pick(rng, 'default', 'none', 'ones', 'float', 'int', 'single', 'omit')
    w = {'float': rng.uniform(0.3, 3, mr), 'int': rng.integers(1, 6, mr).astype(gen.pick(rng, 'i8', 'i4', 'u1')),
         'single': rng.uniform(0.5, 2, mr).astype('f4'), 'ones': np.ones(mr)}.get(what)
    rw = w if w is not None else np.ones(mr) if what == 'none' else np.sqrt(np.minimum(np.arange(1, mr + 1), np.arange(mr, 0, -1)))
    c.note(m=m, disp=disp, k=k, form=form, what=what, w=w, s=s, R=R)
    kw = {} if what == 'omit' else {'row_weights': w if w is not None else what}
    Es = np.linalg.eigh(R)[1][:, -k:]
    X, Z = np.asarray(rw, float)[:, None] * Es[:-disp], np.asarray(rw, float)[:, None] * Es[disp:]
    if np.linalg.cond(X) > 1e3:
        c.skip('ill-conditioned')
    if form == 'ls':
        Phi = np.linalg.lstsq(X, Z, rcond=None)[0]
    else:
        sv, Vh = np.linalg.svd(np.hstack((X, Z)))[1:]
        V = Vh.conj().T
        V22 = V[k:, k:]
        low = sv[k] if len(sv) > k else 0.0
        if np.linalg.cond(V22) > 1e3 or sv[k - 1] < 1.1 * low + 1e-9:
            c.skip('ill-conditioned')
        Phi = -V[:k, k:] @ np.linalg.inv(V22)
    ph = np.angle(np.linalg.eigvals(Phi))
    ph.sort()
    if np.any(np.abs(ph) > 3.1) or (k > 1 and np.min(np.diff(ph)) < 1e-2):
        c.skip('ambiguous')
    r = Esprit1D(wl).estimate(gen.relayout(rng, R), k, d0=d0, displacement=disp, formulation=form, unit='sin', **kw)
    c.ok(bool(r[0]), 'resolved')
    c.close(r[1].locations, ph / np.pi, 'weighted-solution', rtol=0, atol=1e-6, msg=form + ' ' + what)
    if w is not None and w.dtype.kind == 'f':
        r = Esprit1D(wl).estimate(R, k, d0=d0, displacement=disp, formulation=form, unit='sin', row_weights=w * 4)
        c.close(r[1].locations, ph / np.pi, 'weighted-solution', rtol=0, atol=1e-6, msg='scaled weights')


@check.scenario(400)
def refusals(c):
    rng = c.rng
    m = int(rng.integers(2, 9))
    wl = gen.wavelength(rng)
    R = gen.hermitian(rng, m, 'wishart', scale=1.0)
    rm, es = RootMUSIC1D(wl), Esprit1D(wl)
    disp = int(rng.integers(1, m))
    c.note(m=m, wl=wl, disp=disp)
    extra = int(rng.integers(0, 4))
    c.refused(lambda: rm.estimate(R, m + extra), 'too-many')
    c.refused(lambda: rm.estimate(R, -1 - extra), 'negative-k')
    c.refused(lambda: es.estimate(R, -1 - extra), 'negative-k')
    for e in (rm, es):
        r = e.estimate(R, 0)
        c.ok(r[1] is None or r[1].size == 0, 'no-sources')
    c.refused(lambda: rm.estimate(R[:, :-1], 1), 'not-square')
    c.refused(lambda: rm.estimate(R[:-1], 1), 'not-square')
    c.refused(lambda: rm.estimate(R[0], 1), 'not-square')
    c.refused(lambda: es.estimate(R, m - disp + 1 + extra, displacement=disp), 'too-many')
    c.refused(lambda: es.estimate(R[:, :-1], 1), 'not-square', exc=(ValueError, np.linalg.LinAlgError))
    c.refused(lambda: es.estimate(R, 1, displacement=-extra), 'displacement')
    c.refused(lambda: es.estimate(R, 1, formulation=gen.pick(rng, 'TLS2', '', 'sls', None)), 'formulation')
    c.refused(lambda: es.estimate(R, 1, row_weights=gen.pick(rng, 'uniform', 'Default', '')), 'row-weights')
    c.refused(lambda: es.estimate(R, 1, displacement=disp, row_weights=np.ones(m - disp + 1)), 'row-weights')
    c.refused(lambda: es.estimate(R, 1, displacement=disp, row_weights=np.ones((m - disp, 1))), 'row-weights')
    c.refused(lambda: es.estimate(R, 1, displacement=disp, row_weights=gen.pick(rng, None, 3.0, [1.0] * (m - disp))), 'row-weights')
    # the objects still work
    k = 1
    A = ref.expj(np.pi * np.arange(m) * 0.3)[:, None]
    Q = A @ A.conj().T + 0.1 * np.eye(m)
    c.close(rm.estimate(Q, k, unit='sin')[1].locations, [0.3], 'after-refusal', atol=1e-4)
    c.close(es.estimate(Q, k, unit='sin')[1].locations, [0.3], 'after-refusal', atol=1e-6)
    # the largest admissible numbers are accepted
    c.ok(rm.estimate(R, m - 1)[0] in (True, False), 'edge')
    if m - disp >= 1:
        es.estimate(R, m - disp, displacement=disp, unit='rad', d0=wl / 2)


history.register(check, ('rooting',), ('root-music', 'esprit'))
