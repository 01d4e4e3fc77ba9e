import numpy as np
from vlib import gen, ref
from vlib.core import Check
from checks import c11
from checks.c14 import fp, freeze, alike, arr_of, hostile
import doatools.model.arrays as AR
import doatools.model.sources as SR
import doatools.model.coarray as CO
import doatools.model.perturbations as PE
import doatools.model.array_elements as EL
from doatools.model.signals import ComplexStochasticSignal, RandomPhaseSignal
from doatools.model.snapshots import get_narrowband_snapshots
import doatools.estimation.grid as GR
from doatools.estimation.coarray import CoarrayACMBuilder1D
from doatools.estimation.music import RootMUSIC1D
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.ml import AMLEstimator, CMLEstimator, WSFEstimator
from doatools.estimation.preprocessing import spatial_smooth, l1_svd
from doatools.estimation.source_number import aic, mdl, sorte
from doatools.estimation.sparse import SparseCovarianceMatching, GroupSparseEstimator
from doatools.optim.l1lsq import L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem
from doatools.performance import (crb_det_farfield_1d, crb_sto_farfield_1d, crb_stouc_farfield_1d,
                                  ecov_music_1d, ecov_coarray_music_1d)
import doatools.utils.math as UM
import doatools.utils.conversion as UC

check = Check('C25',
              'sessions on shared objects: random interleavings of documented-invalid calls (each must be refused, leave its arguments, '
              'the shared objects and the random state untouched) with valid and boundary calls whose answers must equal those given '
              'before any refusal and those of freshly built objects, for every estimator, builder, problem, model and performance '
              'entry point; non-trivial = a refusal was demanded and a valid answer compared after it',
              ['the refusal is an error (ValueError, KeyError, RuntimeError or their subclasses) raised by the call that received or '
               'first uses the bad argument; wrong Python types are out of scope'])

E3 = (ValueError, RuntimeError, KeyError)


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def session(c, build, steps=None, loose=False, exact_reuse=True):
    """build(): (valid {name: fn}, bad [(mech, fn)], watched objects), deterministic.

    The shared set of objects sees refusals and valid calls in random order; a second set, built
    the same way, sees valid calls only."""
    rng = c.rng
    fresh_valid = build()[0]
    valid, bad, watch = build()
    tol = 1e-5 if loose else 1e-9
    expect = {}

    def want(n):
        if n not in expect:
            st = np.random.get_state()
            expect[n] = freeze(fresh_valid[n]())
            np.random.set_state(st)
        return expect[n]
    names = list(valid)
    todo = [('bad', i) for i in range(len(bad))]
    if steps is not None and len(todo) > steps:
        todo = [todo[i] for i in sorted(rng.choice(len(todo), steps, replace=False))]
    seq = list(todo)
    for n in names:
        for _ in range(int(rng.integers(1, 3))):
            seq.append(('ok', n))
    seq = [seq[i] for i in rng.permutation(len(seq))]
    seq += [('ok', n) for n in names]                       # after all refusals
    print0 = fp(watch)
    trace = []
    c.note(trace=trace)
    for kind, i in seq:
        if kind == 'bad':
            mech, fn = bad[i][:2]
            trace.append('refuse ' + mech)
            st = np.random.get_state()
            c.refused(fn, mech, bad[i][2] if len(bad[i]) > 2 else E3, msg=mech)
            c.ok(same_state(st, np.random.get_state()), 'refusal-random-state', mech)
            c.ok(fp(watch) == print0, 'refusal-changes-objects', lambda: mech)
        else:
            trace.append('call ' + i)
            st = np.random.get_state()
            got = freeze(valid[i]())
            np.random.set_state(st)
            alike(c, want(i), got, 'after-refusal', i, tol)
            c.ok(fp(watch) == print0, 'call-changes-objects', lambda: i)


def seeded(c, f):
    """Deterministic builder: f(rng) -> (valid, bad, watch)."""
    s = int(c.rng.integers(2**31))
    return lambda: f(np.random.default_rng(s))


class _C:
    def __init__(self, rng):
        self.rng = rng


def bad_covariances(rng, m, k=1):
    """Matrices that are not the m x m covariance expected."""
    d = int(rng.integers(1, 4))
    R = gen.hermitian(rng, m, 'wishart', scale=1.0)
    out = [('covariance-size', gen.hermitian(rng, m + d, 'wishart', scale=1.0)),
           ('covariance-columns', gen.crandn(rng, m, m + d)),
           ('covariance-rows', gen.crandn(rng, m + d, m)),
           ('covariance-vector', gen.crandn(rng, m)),
           ('covariance-vector', gen.crandn(rng, m * m)),
           ('covariance-3d', np.stack([R, R])),
           ('covariance-3d', R[:, :, None])]
    if m > 1:
        out += [('covariance-size', R[1:, 1:].copy()), ('covariance-columns', R[:, 1:].copy()), ('covariance-rows', R[1:].copy())]
    return out


def wrong_unit(rng, *also):
    return gen.pick(rng, 'Rad', 'degree', 'DEG', 'radian', 'cos', '', 'xyz', *also)


@check.scenario(700, big=True)
def spectrum_estimators(c):
    def build(rng):
        x = _C(rng)
        wl = float(10 ** rng.uniform(-1, 1))
        arr = arr_of(x, wl)
        m = arr.size
        kind = gen.pick(rng, 'ff1d', 'ff1d', 'ff2d', 'nf2d')
        g = gen.grid(rng, kind, wl)
        R = gen.hermitian(rng, m, gen.pick(rng, 'wishart', 'real'), scale=1.0)
        cach = gen.coin(rng, 0.7)
        valid, bad = {}, []
        for n, E in c11.EST.items():
            e = E(arr, wl, g, enable_caching=cach)
            for k in sorted({1, int(rng.integers(1, m)), m - 1}):
                if c11.in_domain(n, R, k):
                    valid[n + str(k)] = lambda e=e, k=k: e.estimate(R, k, return_spectrum=True)
            for mech, Q in bad_covariances(rng, m):
                bad.append((n + '-' + mech, lambda e=e, Q=Q: e.estimate(Q, 1)))
            bad.append((n + '-negative', lambda e=e: e.estimate(R, -1)))
            if n in ('music', 'minnorm'):
                for k in (m, m + 1, m + 5):
                    bad.append((n + '-too-many', lambda e=e, k=k: e.estimate(R, k)))
                    bad.append((n + '-too-many', lambda e=e, k=k: e.estimate(R, k, return_spectrum=True, refine_estimates=True)))
            if n in ('bartlett', 'mvdr') and e.estimate(R, 1)[0]:
                for dens in (0, -1):
                    bad.append((n + '-density', lambda e=e, dens=dens: e.estimate(R, 1, refine_estimates=True, refinement_density=dens)))
        return valid, bad, [arr, g, R]
    session(c, seeded(c, build), steps=18)


@check.scenario(500, big=True)
def rooting(c):
    def build(rng):
        wl = float(10 ** rng.uniform(-1, 1))
        m = int(rng.integers(2, 9))
        d0 = wl / 2
        unit = gen.pick(rng, 'rad', 'deg', 'sin')
        rm, es = RootMUSIC1D(wl), Esprit1D(wl)
        k = int(rng.integers(1, m))
        valid, bad = {}, []

        def exact(k):
            s = gen.separated_sines(rng, k, -0.9, 0.9)
            A = np.exp(1j * np.pi * np.outer(np.arange(m), s))
            return A @ A.conj().T + 0.1 * np.eye(m)
        R, Rm = exact(k), exact(m - 1)
        valid['root'] = lambda: rm.estimate(R, k, d0, unit)
        valid['root-most'] = lambda: (rm.estimate(Rm, m - 1, unit=unit)[0],)
        form = gen.pick(rng, 'ls', 'tls')
        valid['esprit'] = lambda: es.estimate(R, k, formulation=form, unit=unit)
        valid['esprit-most'] = lambda: (es.estimate(Rm, m - 1)[0],)
        disp = int(rng.integers(1, m))
        md = m - disp
        valid['esprit-widest'] = lambda: (es.estimate(R, 1, d0=d0 / (2 * m), displacement=m - 1, row_weights='none')[0],)
        e = int(rng.integers(0, 3))
        for mech, Q in bad_covariances(rng, m):
            if mech == 'covariance-size':
                continue                                    # any square matrix is a covariance of some array
            bad.append(('root-' + mech, lambda Q=Q: rm.estimate(Q, 1)))
            bad.append(('esprit-' + mech, lambda Q=Q: es.estimate(Q, 1, row_weights='none'), E3 + (IndexError,)))
        bad += [('root-too-many', lambda: rm.estimate(R, m + e)),
                ('root-unit', lambda u=wrong_unit(rng, 'm'): rm.estimate(R, k, d0, u)),
                ('esprit-too-many', lambda: es.estimate(R, md + 1 + e, displacement=disp)),
                ('esprit-unit', lambda u=wrong_unit(rng, 'm'): es.estimate(R, k, unit=u)),
                ('esprit-displacement', lambda: es.estimate(R, 1, displacement=0)),
                ('esprit-displacement', lambda: es.estimate(R, 1, displacement=-1 - e)),
                ('esprit-displacement', lambda: es.estimate(R, 1, displacement=m + e)),
                ('esprit-formulation', lambda f=gen.pick(rng, 'LS', 'TLS', '', 'lst', 'default'): es.estimate(R, k, formulation=f)),
                ('esprit-weights', lambda f=gen.pick(rng, 'None', 'Default', '', 'uniform'): es.estimate(R, k, row_weights=f)),
                ('esprit-weights', lambda v=rng.uniform(1, 2, m): es.estimate(R, k, row_weights=v)),
                ('esprit-weights', lambda v=rng.uniform(1, 2, md + 1): es.estimate(R, 1, displacement=disp, row_weights=v)),
                ('esprit-weights', lambda v=rng.uniform(1, 2, 1 if md > 1 else 2): es.estimate(R, 1, displacement=disp, row_weights=v)),
                ('esprit-weights', lambda v=rng.uniform(1, 2, (md, 1)): es.estimate(R, 1, displacement=disp, row_weights=v)),
                ('esprit-weights', lambda v=rng.uniform(1, 2, (1, md)): es.estimate(R, 1, displacement=disp, row_weights=v))]
        return valid, bad, [R]
    session(c, seeded(c, build))


@check.scenario(300)
def ml(c):
    def build(rng):
        x = _C(rng)
        wl = float(10 ** rng.uniform(-1, 1))
        arr = arr_of(x, wl, ndim=2, max_size=6)
        m = arr.size
        cls = gen.pick(rng, AMLEstimator, CMLEstimator, WSFEstimator)
        e = cls(arr, wl)
        k = int(rng.integers(1, min(3, m)))
        src = gen.ff1d(rng, k, margin=0.8, boundary=False)
        R = gen.hermitian(rng, m, 'wishart', scale=1.0)
        one = gen.ff1d(rng, 1, margin=0.8, boundary=False)
        opt = {'options': {'maxiter': 6}}
        valid = {'ml': lambda: e.estimate(R, src, **opt)}
        bad = [('ml-' + mech, lambda Q=Q: e.estimate(Q, one)) for mech, Q in bad_covariances(rng, m)]
        for kk in (m, m + 1, m + 4):
            many = gen.ff1d(rng, kk, margin=0.8, boundary=False)
            bad.append(('ml-too-many', lambda many=many: e.estimate(R, many)))
        return valid, bad, [arr, R, src, one]
    session(c, seeded(c, build), loose=True)


@check.scenario(40)
def sparse(c):
    def build(rng):
        wl = 1.0
        m = int(rng.integers(3, 6))
        arr = AR.UniformLinearArray(m, wl / 2)
        g = GR.FarField1DSearchGrid(size=int(rng.integers(8, 14)))
        R = gen.hermitian(rng, m, 'wishart', scale=1.0)
        form = gen.pick(rng, 'penalizedl1', 'constrainedl1', 'constrainedl2')
        known = gen.coin(rng)
        e = SparseCovarianceMatching(arr, wl, g, known, form)
        n = int(rng.integers(1, 4))
        ge = GroupSparseEstimator(arr, wl, g, n)
        Y = gen.crandn(rng, m, n)
        kw = {'sigma': 0.1} if known else {}
        l = {'penalizedl1': 0.3, 'constrainedl1': 2.0, 'constrainedl2': 6.0}[form]
        rnd = lambda r: (r[0], np.round(r[2], 2).shape)
        val = lambda r: (r[2].sum(),)
        valid = {'matching': lambda: val(e.estimate(R, 1, l, return_spectrum=True, **kw)),
                 'group': lambda: val(ge.estimate(Y, 1, 0.3, return_spectrum=True))}
        bad = [('matching-' + mech, lambda Q=Q: e.estimate(Q, 1, l, **kw)) for mech, Q in bad_covariances(rng, m)]
        for flag in (True, False):
            bad.append(('matching-refinement', lambda flag=flag: e.estimate(R, 1, l, refine_estimates=flag, **kw)))
        bad.append(('group-refinement', lambda: ge.estimate(Y, 1, l, refine_estimates=True)))
        bad.append(('matching-negative', lambda: e.estimate(R, 1, -l, **kw)))
        bad.append(('group-negative', lambda: ge.estimate(Y, 1, -l)))
        if known:
            bad.append(('matching-sigma', lambda: e.estimate(R, 1, l)))
            bad.append(('matching-sigma', lambda: e.estimate(R, 1, l, None, return_spectrum=True)))
        for sh in ((m + 1, n), (m - 1, n), (m, n + 1), (m, n + 2)):
            Z = gen.crandn(rng, *sh)
            bad.append(('group-size', lambda Z=Z: ge.estimate(Z, 1, 0.3)))
        bad.append(('matching-formulation', lambda f=gen.pick(rng, 'l1', '', 'PenalizedL1', 'constrained'): SparseCovarianceMatching(arr, wl, g, known, f)))
        return valid, bad, [arr, g, R, Y]
    # the solvers are warm started: equal up to their accuracy
    rng = c.rng
    s = int(rng.integers(2**31))
    va, bad, watch = build(np.random.default_rng(s))
    vb, _, _ = build(np.random.default_rng(s))
    base = {n: f()[0] for n, f in vb.items()}
    before = fp(watch)
    for i in rng.permutation(len(bad)):
        c.refused(bad[i][1], bad[i][0], msg=bad[i][0])
        c.ok(fp(watch) == before, 'refusal-changes-objects', bad[i][0])
        if gen.coin(rng, 0.15):
            n = gen.pick(rng, *va)
            c.ok(abs(va[n]()[0] - base[n]) <= 2e-2 * (0.1 + abs(base[n])), 'after-refusal', n)
    for n in va:
        c.ok(abs(va[n]()[0] - base[n]) <= 2e-2 * (0.1 + abs(base[n])), 'after-refusal', n)


@check.scenario(40)
def convex_problems(c):
    rng = c.rng
    m, k, n = int(rng.integers(2, 5)), int(rng.integers(2, 6)), int(rng.integers(1, 4))
    A, b, B = rng.normal(size=(m, k)), rng.normal(size=(m, 1)), rng.normal(size=(m, n))
    cp = gen.coin(rng)
    if cp:
        A2, B = A + 1j * rng.normal(size=(m, k)), B + 1j * rng.normal(size=(m, n))
    else:
        A2 = A
    form = gen.pick(rng, 'penalizedl1', 'constrainedl1')
    mk1 = lambda: L1RegularizedLeastSquaresProblem(m, k, form, nn)
    mk2 = lambda: L21RegularizedLeastSquaresProblem(m, k, n, cp)
    nn = gen.coin(rng)
    p, q = mk1(), mk2()
    o1 = lambda x: float(0.5 * np.sum((A @ np.reshape(x, (k, 1)) - b) ** 2) + (0.3 * np.abs(x).sum() if form == 'penalizedl1' else 0))
    o2 = lambda X: float(0.5 * np.sum(np.abs(A2 @ X - B) ** 2) + 0.3 * np.sqrt((np.abs(X) ** 2).sum(1)).sum())
    e1, e2 = o1(mk1().solve(A, b, 0.3)), o2(mk2().solve(A2, B, 0.3))
    bad = [('l1-A', lambda: p.solve(rng.normal(size=(m + 1, k)), b, 0.3)), ('l1-A', lambda: p.solve(A[:, 1:], b, 0.3)),
           ('l1-A', lambda: p.solve(A.T if m != k else A[1:], b, 0.3)),
           ('l1-b', lambda: p.solve(A, rng.normal(size=(m + 1, 1)), 0.3)), ('l1-b', lambda: p.solve(A, rng.normal(size=(m, 2)), 0.3)),
           ('l1-l', lambda: p.solve(A, b, -0.3)), ('l1-complex', lambda: p.solve(A + 1j, b, 0.3)),
           ('l21-A', lambda: q.solve(A2[:, 1:], B, 0.3)), ('l21-A', lambda: q.solve(rng.normal(size=(m + 2, k)), B, 0.3)),
           ('l21-B', lambda: q.solve(A2, rng.normal(size=(m, n + 1)), 0.3)), ('l21-B', lambda: q.solve(A2, rng.normal(size=(m + 1, n)), 0.3)),
           ('l21-l', lambda: q.solve(A2, B, -1e-3)),
           ('l1-formulation', lambda: L1RegularizedLeastSquaresProblem(m, k, gen.pick(rng, 'l1', '', None, 'penalised')))]
    if not cp:
        bad.append(('l21-complex', lambda: q.solve(A + 1j, B, 0.3)))
    c.note(m=m, k=k, n=n, cp=cp, nn=nn, form=form)
    w = [A, b, B, A2]
    before = fp(w)
    for i in rng.permutation(len(bad)):
        c.refused(bad[i][1], bad[i][0], msg=bad[i][0])
        if gen.coin(rng, 0.3):
            c.close(o1(p.solve(A, b, 0.3)), e1, 'after-refusal', rtol=1e-2, atol=1e-3)
        if gen.coin(rng, 0.3):
            c.close(o2(q.solve(A2, B, 0.3)), e2, 'after-refusal', rtol=1e-2, atol=1e-3)
    c.close(o1(p.solve(A, b, 0.3)), e1, 'after-refusal', rtol=1e-2, atol=1e-3)
    c.close(o2(q.solve(A2, B, 0.3)), e2, 'after-refusal', rtol=1e-2, atol=1e-3)
    c.ok(fp(w) == before, 'refusal-changes-objects')


@check.scenario(600, big=True)
def coarrays(c):
    def build(rng):
        x = _C(rng)
        wl = float(10 ** rng.uniform(-1, 1))
        arr = arr_of(x, wl, grid1d=True)
        m = arr.size
        b = CoarrayACMBuilder1D(arr)
        wf = CO.WeightFunction1D(arr)
        R = gen.hermitian(rng, m, 'wishart', scale=1.0)
        d = wf.differences()
        valid = {'ss': lambda: b.transform(R, 'ss'), 'da': lambda: b.transform(R, 'da'), 'size': lambda: b.output_size,
                 'ula': lambda: b.get_virtual_ula(),
                 'wf': lambda: (wf.differences(), wf.weights(), tuple(wf.indices_of(int(v)) for v in d))}
        bad = [('acm-' + mech, lambda Q=Q, me=me: b.transform(Q, me)) for mech, Q in bad_covariances(rng, m) for me in ('ss', 'da')]
        for me in ('SS', 'DA', '', 'spatial', 'fb', None):
            bad.append(('acm-method', lambda me=me: b.transform(R, me)))
            bad.append(('acm-method', lambda me=me: b(R, me)))
        loc = rng.normal(size=(4, int(rng.integers(1, 4))))
        two = AR.UniformRectangularArray(2, int(rng.integers(2, 4)), wl / 2)
        circ = AR.UniformCircularArray(4, wl)
        free = AR.ArrayDesign(loc, 'free')
        g2 = AR.GridBasedArrayDesign(rng.integers(0, 4, (4, 2)), wl / 2)
        for a in (two, circ, free, g2):
            bad.append(('builder-array', lambda a=a: CoarrayACMBuilder1D(a)))
            bad.append(('weights-array', lambda a=a: CO.WeightFunction1D(a)))
        return valid, bad, [arr, R, wf]
    session(c, seeded(c, build), steps=16)


@check.scenario(600, big=True)
def arrays(c):
    """Constructors and methods of arrays; refused copies do not damage the array."""
    def build(rng):
        x = _C(rng)
        wl = float(10 ** rng.uniform(-1, 1))
        arr = arr_of(x, wl)
        m = arr.size
        src = gen.sources(rng, int(rng.integers(1, 4)), wl)
        s1 = gen.ff1d(rng, 2, margin=0.9, boundary=False)
        kinds = ['location_errors', 'gain_errors', 'phase_errors', 'mutual_coupling']
        d = gen.perturbation_dict(rng, m, wl, kinds=kinds)
        which = gen.pick(rng, 'all', 'known', 'none', 'false') if False else gen.pick(rng, 'all', 'known', 'none')
        valid = {'steer': lambda: arr.steering_matrix(src, wl, perturbations=which),
                 'copy': lambda: arr.get_perturbed_copy(d),
                 'free': lambda: arr.get_perturbation_free_copy(),
                 'deriv': lambda: arr.steering_matrix(s1, wl, True, 'none'),
                 'locs': lambda: (arr.element_locations, arr.actual_element_locations)}
        bad = []

        def both(mech, dd):
            bad.append((mech, lambda: arr.get_perturbed_copy(dd)))
            bad.append((mech, lambda: AR.ArrayDesign(arr.element_locations, 'a', perturbations=dd)))
        e = int(rng.integers(1, 3))
        kn = gen.coin(rng)
        for bm in ([m + e] + ([m - 1] if m > 1 else [])):
            both('location-errors-size', {'location_errors': (rng.normal(size=(bm, int(rng.integers(1, 4)))) * 0.01, kn)})
            both('gain-size', {'gain_errors': (rng.uniform(-.3, .3, bm), kn)})
            both('phase-size', {'phase_errors': (rng.uniform(-.3, .3, bm), kn)})
            both('coupling-size', {'mutual_coupling': (np.eye(bm) + 0j, kn)})
        both('coupling-square', {'mutual_coupling': (gen.crandn(rng, m, m + e), kn)})
        both('coupling-square', {'mutual_coupling': (gen.crandn(rng, m + e, m), kn)})
        both('coupling-square', {'mutual_coupling': (gen.crandn(rng, m), kn)})
        both('gain-matrix', {'gain_errors': (rng.normal(size=(m, 1)), kn)})
        both('phase-matrix', {'phase_errors': (rng.normal(size=(1, m)), kn)})
        both('location-errors-vector', {'location_errors': (rng.normal(size=m), kn)})
        both('location-errors-dims', {'location_errors': (rng.normal(size=(m, 4)), kn)})
        both('unknown-imperfection', {gen.pick(rng, 'gain', 'coupling', 'errors', 'Gain_errors'): (rng.normal(size=m), kn)})
        good = rng.uniform(-.3, .3, m)
        two = [PE.GainErrors(good), PE.GainErrors(good, True)]
        bad.append(('duplicate-imperfection', lambda: AR.ArrayDesign(arr.element_locations, 'a', perturbations=two)))
        wrong = dict(d)
        wrong[gen.pick(rng, 'gain_errors', 'phase_errors')] = (rng.normal(size=m + 1), kn)
        both('mixed-size', wrong)
        for f in ('All', 'unknown', '', 'any'):
            bad.append(('filter', lambda f=f: arr.steering_matrix(src, wl, perturbations=f)))
        ff2 = gen.ff2d(rng, 2)
        nf = gen.nf2d(rng, 2, wl)
        bad.append(('derivative', lambda: arr.steering_matrix(ff2, wl, True)))
        bad.append(('derivative', lambda: arr.steering_matrix(nf, wl, True)))
        for dim in (4, 5):
            bad.append(('array-dims', lambda dim=dim: AR.ArrayDesign(np.zeros((m, dim)), 'a')))
            bad.append(('grid-dims', lambda dim=dim: AR.GridBasedArrayDesign(np.zeros((m, dim), dtype=int), 1.0)))
        bad.append(('array-dims', lambda: AR.ArrayDesign(np.zeros((m, 2, 1)), 'a')))
        p, q = gen.pick(rng, (2, 4), (3, 6), (4, 6), (6, 9), (5, 5))
        bad.append(('coprime', lambda: AR.CoPrimeArray(p, q, 1.0)))
        bad.append(('coprime', lambda: AR.CoPrimeArray(q, p, 1.0, 'm')))
        bad.append(('coprime-mode', lambda mo=gen.pick(rng, '3m', '', 'n', '2', 'mm'): AR.CoPrimeArray(2, 3, 1.0, mo)))
        bad.append(('mrla', lambda n=gen.pick(rng, 21, 22, 50): AR.MinimumRedundancyLinearArray(n, 1.0)))
        bad.append(('d0', lambda: AR.GridBasedArrayDesign(np.zeros((m, 2), dtype=int), d0=[1.0, 1.0, 1.0])))
        return valid, bad, [arr, src, d]
    session(c, seeded(c, build), steps=22)


@check.scenario(600, big=True)
def placements(c):
    def build(rng):
        k = int(rng.integers(1, 5))
        wl = 1.0
        s1 = gen.ff1d(rng, k)
        s2 = gen.ff2d(rng, k)
        s3 = gen.nf2d(rng, k, wl)
        loc = rng.normal(size=(3, int(rng.integers(1, 4))))
        i = int(rng.integers(k))
        valid = {}
        for n, s in (('1d', s1), ('2d', s2), ('nf', s3)):
            valid[n] = lambda s=s: (s.phase_delay_matrix(loc, wl), s[i], s[[i]], s[i:], s.size, len(s))
        valid['units'] = lambda: (s1.as_unit('rad'), s1.as_unit('deg'), s1.as_unit('sin'), s2.as_unit('deg'), s2.as_unit('rad'), s3.as_unit('m'))
        lim = {'rad': np.pi / 2, 'deg': 90.0, 'sin': 1.0}
        valid['edges'] = lambda: tuple(SR.FarField1DSourcePlacement([-lim[u], 0.0, lim[u]], u) for u in lim)
        valid['edges2'] = lambda: (SR.FarField2DSourcePlacement([[-np.pi, np.pi / 2], [np.pi, -np.pi / 2]]),
                                   SR.FarField2DSourcePlacement([[-180.0, 90.0], [180.0, -90.0]], 'deg'))
        bad = []
        for u in lim:
            for v in (lim[u] * (1 + 10 ** rng.uniform(-8, 1)), -lim[u] * (1 + 10 ** rng.uniform(-8, 1))):
                x = rng.uniform(-lim[u], lim[u], k)
                x[i] = v
                bad.append(('1d-range', lambda x=x, u=u: SR.FarField1DSourcePlacement(x, u)))
                bad.append(('1d-range', lambda x=x, u=u: SR.FarField1DSourcePlacement(x.tolist(), u)))
        for u, a, e in (('rad', np.pi, np.pi / 2), ('deg', 180.0, 90.0)):
            X = np.column_stack((rng.uniform(-a, a, k), rng.uniform(-e, e, k)))
            for col, b in ((0, a), (1, e)):
                for sgn in (1, -1):
                    Z = X.copy()
                    Z[i, col] = sgn * b * (1 + 10 ** rng.uniform(-8, 1))
                    bad.append(('2d-range', lambda Z=Z, u=u: SR.FarField2DSourcePlacement(Z, u)))
        for w in (1, 3, 4):
            bad.append(('2d-columns', lambda w=w: SR.FarField2DSourcePlacement(np.zeros((k, w)))))
            bad.append(('nf-columns', lambda w=w: SR.NearField2DSourcePlacement(np.zeros((k, w)))))
        bad.append(('1d-matrix', lambda: SR.FarField1DSourcePlacement(np.zeros((k, 1)))))
        bad.append(('1d-matrix', lambda: SR.FarField1DSourcePlacement(np.zeros((1, k)))))
        bad.append(('2d-vector', lambda: SR.FarField2DSourcePlacement(np.zeros(2))))
        bad.append(('nf-vector', lambda: SR.NearField2DSourcePlacement(np.zeros(2))))
        bad.append(('1d-unit', lambda u=wrong_unit(rng, 'm'): SR.FarField1DSourcePlacement(np.zeros(k), u)))
        bad.append(('2d-unit', lambda u=wrong_unit(rng, 'm', 'sin'): SR.FarField2DSourcePlacement(np.zeros((k, 2)), u)))
        bad.append(('as-unit', lambda u=wrong_unit(rng, 'm'): s1.as_unit(u)))
        bad.append(('as-unit', lambda u=wrong_unit(rng, 'm', 'sin'): s2.as_unit(u)))
        bad.append(('as-unit', lambda u=wrong_unit(rng, 'rad', 'cm', 'km'): s3.as_unit(u)))
        for s in (s1, s2, s3):
            bad.append(('sensor-dims', lambda s=s: s.phase_delay_matrix(np.zeros((3, 4)), wl)))
            bad.append(('index', lambda s=s: s[s.size], (IndexError,)))
            bad.append(('index', lambda s=s: s[-s.size - 1], (IndexError,)))
            bad.append(('index', lambda s=s: s[[0, s.size + 2]], (IndexError,)))
        for s in (s2, s3):
            bad.append(('derivative', lambda s=s: s.phase_delay_matrix(loc, wl, True)))
        z = np.exp(1j * rng.uniform(-3, 3, k))
        bad.append(('from-z-unit', lambda u=wrong_unit(rng, 'm'): SR.FarField1DSourcePlacement.from_z(z, wl, wl / 2, u)))
        return valid, bad, [s1, s2, s3, loc, z]
    session(c, seeded(c, build), steps=24)


@check.scenario(400)
def grids(c):
    def build(rng):
        wl = 1.0
        kind = gen.pick(rng, 'ff1d', 'ff2d', 'nf2d')
        g = gen.grid(rng, kind, wl)
        d = len(g.shape)
        coord = tuple(int(rng.integers(n)) for n in g.shape)
        valid = {'at': lambda: g.create_refined_axes_at(coord, 3, 1), 'grid': lambda: g.create_refined_grid_at(coord, density=2),
                 'density1': lambda: g.create_refined_axes_at(coord, 1, 1),
                 'corners': lambda: (g.create_refined_axes_at(tuple(0 for _ in g.shape), 2, 1),
                                     g.create_refined_axes_at(tuple(n - 1 for n in g.shape), 2, 2)),
                 'src': lambda: g.source_placement}
        bad = []
        for v in (0, -1, -7):
            bad.append(('density', lambda v=v: g.create_refined_axes_at(coord, v, 1)))
            bad.append(('span', lambda v=v: g.create_refined_axes_at(coord, 2, v)))
            bad.append(('density', lambda v=v: g.create_refined_grid_at(coord, density=v)))
            bad.append(('span', lambda v=v: g.create_refined_grid_at(coord, density=2, span=v)))
        bad.append(('coordinate-length', lambda: g.create_refined_grid_at(coord + (0,), density=2)))
        if d == 2:
            bad.append(('coordinate-length', lambda: g.create_refined_grid_at(coord[:1], density=2)))
        for j in range(d):
            far = list(coord)
            far[j] = g.shape[j] + int(rng.integers(0, 3))
            bad.append(('coordinate-range', lambda far=tuple(far): g.create_refined_grid_at(far, density=2), E3 + (IndexError,)))
        cls = type(g)
        bad.append(('axes-tuple', lambda: cls(axes=list(g.axes))))
        if kind != 'nf2d':
            bad.append(('unit', lambda u=wrong_unit(rng, 'm'): cls(unit=u)))
            u = wrong_unit(rng, 'm')
            bad.append(('unit', lambda: cls(axes=tuple(np.array([0.0, 0.5, 1.0]) for _ in g.shape), unit=u).source_placement))
        return valid, bad, [g]
    session(c, seeded(c, build))


@check.scenario(400)
def simulation(c):
    def build(rng):
        x = _C(rng)
        wl = 1.0
        arr = arr_of(x, wl)
        m, k = arr.size, int(rng.integers(1, 4))
        src = gen.sources(rng, k, wl)
        mk = gen.pick(rng, ComplexStochasticSignal, RandomPhaseSignal)
        sig, noise = mk(k), ComplexStochasticSignal(m, 0.5)
        valid = {'snap': lambda: get_narrowband_snapshots(arr, src, wl, sig, noise, 5, True),
                 'emit': lambda: (sig.emit(3), noise.emit(2))}
        CS, RP = ComplexStochasticSignal, RandomPhaseSignal
        o = int(rng.integers(1, 4))
        bad = []
        for b in [k + o] + ([k - 1] if k > 1 else []):
            bad += [('variances', lambda b=b: CS(k, np.ones(b))), ('covariance', lambda b=b: CS(k, np.eye(b))),
                    ('covariance', lambda b=b: CS(k, np.ones((k, b)))), ('covariance', lambda b=b: CS(k, np.ones((b, k)))),
                    ('amplitudes', lambda b=b: RP(k, np.ones(b)))]
        bad.append(('covariance', lambda: CS(k, np.ones((k, k, k)))))
        # these draw from the generator before they can know
        late = []
        for b in [k + o] + ([k - 1] if k > 1 else []):
            late.append(('source-size', lambda b=b: get_narrowband_snapshots(arr, src, wl, mk(b), noise, 4)))
        for b in [m + o, m - 1, 1]:
            late.append(('noise-size', lambda b=b: get_narrowband_snapshots(arr, src, wl, sig, CS(b), 4)))
            late.append(('noise-size', lambda b=b: get_narrowband_snapshots(arr, src, wl, sig, RP(b), 1, True)))

        def keep(f):
            def h():
                st = np.random.get_state()
                try:
                    return f()
                finally:
                    np.random.set_state(st)
            return h
        bad += [(n, keep(f)) for n, f in late]
        return valid, bad, [arr, src]
    session(c, seeded(c, build))


@check.scenario(300)
def performance(c):
    def build(rng):
        wl = 1.0
        m = int(rng.integers(3, 8))
        arr = AR.UniformLinearArray(m, wl / 2)
        k = int(rng.integers(1, 3))
        src = SR.FarField1DSourcePlacement(gen.separated_sines(rng, k, -0.8, 0.8), 'sin')
        P = gen.source_cov(rng, k, 'full')
        nest = AR.NestedArray(2, 3, wl / 2)
        fs = {'det': lambda p, **kw: crb_det_farfield_1d(arr, src, wl, P if p is None else p, 0.5, 10, **kw),
              'sto': lambda p, **kw: crb_sto_farfield_1d(arr, src, wl, 1.0 if p is None else p, 0.5, 10, **kw),
              'stouc': lambda p, **kw: crb_stouc_farfield_1d(arr, src, wl, 1.0 if p is None else p, 0.5, 10, **kw),
              'ecov': lambda p, **kw: ecov_music_1d(arr, src, wl, 1.0 if p is None else p, 0.5, 10, **kw),
              'coarray': lambda p, **kw: ecov_coarray_music_1d(nest, src, wl, 1.0 if p is None else p, 0.5, 10, **kw)}
        valid = {n: (lambda f=f: (f(None), f(None, return_mode='diag'), f(None, return_mode='mean_diag'))) for n, f in fs.items()}
        bad = []
        for n, f in fs.items():
            bad.append((n + '-mode', lambda f=f, mo=gen.pick(rng, 'Full', '', 'mean', 'trace', None): f(None, return_mode=mo)))
            o = int(rng.integers(1, 3))
            bad.append((n + '-power', lambda f=f, o=o: f(np.eye(k + o))))
            bad.append((n + '-power', lambda f=f, o=o: f(np.ones((k, k + o)))))
            bad.append((n + '-power', lambda f=f, o=o: f(np.ones((k + o, k)))))
            bad.append((n + '-power', lambda f=f: f(np.ones((k, k, 1)))))
            if n != 'det':
                bad.append((n + '-power', lambda f=f, o=o: f(np.ones(k + o))))
                bad.append((n + '-power', lambda f=f, o=o: f([1.0] * (k + o))))
        s2, s3 = gen.ff2d(rng, k), gen.nf2d(rng, k, wl)
        for n, g, a in (('det', crb_det_farfield_1d, arr), ('sto', crb_sto_farfield_1d, arr), ('stouc', crb_stouc_farfield_1d, arr),
                        ('ecov', ecov_music_1d, arr), ('coarray', ecov_coarray_music_1d, nest)):
            for s in (s2, s3):
                bad.append((n + '-sources', lambda g=g, s=s, a=a: g(a, s, wl, np.eye(k), 0.5, 10)))
        many = SR.FarField1DSourcePlacement(gen.separated_sines(rng, m, -0.9, 0.9), 'sin')
        bad.append(('ecov-too-many', lambda: ecov_music_1d(arr, many, wl, 1.0, 0.5, 10)))
        mv = CoarrayACMBuilder1D(nest).output_size
        tm = SR.FarField1DSourcePlacement(gen.separated_sines(rng, mv, -0.9, 0.9), 'sin')
        most = SR.FarField1DSourcePlacement(np.linspace(-0.85, 0.85, mv - 1), 'sin')
        bad.append(('coarray-too-many', lambda: ecov_coarray_music_1d(nest, tm, wl, 1.0, 0.5, 10)))
        valid['most'] = lambda: ecov_coarray_music_1d(nest, most, wl, 1.0, 0.5, 10)
        pn = nest.get_perturbed_copy({'gain_errors': (rng.uniform(-.1, .1, nest.size), gen.coin(rng))})
        bad.append(('coarray-perturbed', lambda: ecov_coarray_music_1d(pn, src, wl, 1.0, 0.5, 10)))
        return valid, bad, [arr, src, nest, P]
    session(c, seeded(c, build), steps=20)


@check.scenario(500)
def helpers(c):
    def build(rng):
        m = int(rng.integers(4, 9))
        R = gen.hermitian(rng, m, 'wishart', scale=1.0)
        n = int(rng.integers(2, 9))
        Y = gen.crandn(rng, m, n)
        x = rng.uniform(-1, 1, 4)
        A, B = gen.crandn(rng, 3, 4), gen.crandn(rng, 2, 4)
        M = rng.integers(0, 3, (6, 2))
        q = min(m, n)
        fb = gen.coin(rng)
        valid = {'ss1': lambda: spatial_smooth(R, 1, fb), 'ssm': lambda: spatial_smooth(R, m, fb),
                 'svd': lambda: np.abs(l1_svd(Y, q)), 'num': lambda: (int(aic(R, 50)), int(mdl(R, 50)), int(sorte(R))),
                 'sorte4': lambda: int(sorte(R[:4, :4])),
                 'utils': lambda: (UM.khatri_rao(A, B), UM.unique_rows(M), UC.convert_angles(x, 'rad', 'deg'))}
        e = int(rng.integers(1, 4))
        bad = [('smooth-count', lambda: spatial_smooth(R, 0, fb)), ('smooth-count', lambda: spatial_smooth(R, -e, fb)),
               ('smooth-count', lambda: spatial_smooth(R, m + e, fb)),
               ('smooth-square', lambda: spatial_smooth(R[:, 1:], gen.pick(rng, 1, 2), fb)), ('smooth-square', lambda: spatial_smooth(R[1:], 1, fb)),
               ('smooth-square', lambda: spatial_smooth(R[1:], 2, fb)), ('smooth-square', lambda: spatial_smooth(R[0], 1, fb)),
               ('svd-rank', lambda: l1_svd(Y, q + e)), ('svd-rank', lambda: l1_svd(Y.T.copy(), q + 1)),
               ('sorte-few', lambda: sorte(R[:3, :3])), ('sorte-few', lambda: sorte(np.sort(rng.uniform(1, 2, int(rng.integers(1, 4)))))),
               ('aic-square', lambda: aic(R[:, 1:], 50)), ('mdl-square', lambda: mdl(R[1:], 50)), ('sorte-square', lambda: sorte(R[1:])),
               ('khatri-rao', lambda: UM.khatri_rao(A, B[:, 1:])), ('khatri-rao', lambda: UM.khatri_rao(A[:, :1], B)),
               ('unique-rows', lambda: UM.unique_rows(np.arange(4))), ('unique-rows', lambda: UM.unique_rows(np.zeros((2, 2, 2)))),
               ('angles-unit', lambda u=wrong_unit(rng, 'm'): UC.convert_angles(x, u, 'rad')),
               ('angles-unit', lambda u=wrong_unit(rng, 'm'): UC.convert_angles(x, 'sin', u))]
        return valid, bad, [R, Y, x, A, B, M]
    session(c, seeded(c, build))


@check.scenario(300)
def vector_sensors(c):
    """Vector sensors support no imperfections and no derivatives."""
    def build(rng):
        m, q = int(rng.integers(2, 5)), int(rng.integers(2, 4))
        wl = 1.0
        el = EL.CustomNonisotropicSensor(lambda r, az, e, p: np.stack([np.cos(az + i) * np.cos(e) for i in range(q)]), q)
        loc = rng.normal(size=(m, int(rng.integers(1, 4))))
        arr = AR.ArrayDesign(loc, 'v', element=el)
        src = gen.sources(rng, 2, wl)
        s1 = gen.ff1d(rng, 2, margin=0.9, boundary=False)
        valid = {'flat': lambda: arr.steering_matrix(src, wl), 'tensor': lambda: arr.steering_matrix(src, wl, flatten=False),
                 'size': lambda: (arr.size, arr.output_size)}
        bad = [('vector-derivative', lambda: arr.steering_matrix(s1, wl, True)),
               ('vector-derivative', lambda: arr.steering_matrix(s1, wl, compute_derivatives=True, flatten=False))]
        for n, v in (('gain_errors', rng.uniform(-.1, .1, m)), ('phase_errors', rng.uniform(-.1, .1, m)), ('mutual_coupling', np.eye(m) + 0j)):
            d = {n: (v, gen.coin(rng))}
            bad.append(('vector-' + n, lambda d=d: arr.get_perturbed_copy(d)))
            bad.append(('vector-' + n, lambda d=d: AR.ArrayDesign(loc, 'v', d, el)))
        sig = ComplexStochasticSignal(2)

        def snap(b):
            st = np.random.get_state()
            try:
                return get_narrowband_snapshots(arr, src, wl, sig, ComplexStochasticSignal(b), 3)
            finally:
                np.random.set_state(st)
        bad.append(('vector-noise', lambda: snap(m)))
        bad.append(('vector-noise', lambda: snap(m * q + 1)))
        valid['snap'] = lambda: get_narrowband_snapshots(arr, src, wl, sig, ComplexStochasticSignal(m * q), 3)
        return valid, bad, [arr, src, s1]
    session(c, seeded(c, build))
