import copy
import numpy as np
from vlib import gen, history, ref, twins
from vlib.history import alike, arr_of, fp, freeze, hostile, scribble
from vlib.core import Check, Violation
from checks import c11
import doatools.model.arrays as AR
import doatools.model.sources as SR
import doatools.model.coarray as CO
import doatools.model.perturbations as PE
import doatools.model.array_elements as EL
from doatools.model.signals import ComplexStochasticSignal, RandomPhaseSignal
from doatools.model.snapshots import get_narrowband_snapshots
import doatools.estimation.grid as GR
from doatools.estimation.coarray import CoarrayACMBuilder1D
from doatools.estimation.music import RootMUSIC1D
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.ml import AMLEstimator, CMLEstimator, WSFEstimator
from doatools.estimation.preprocessing import spatial_smooth, l1_svd
from doatools.estimation.source_number import aic, mdl, sorte
from doatools.estimation.sparse import SparseCovarianceMatching, GroupSparseEstimator
from doatools.optim.l1lsq import L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem
from doatools.performance import (crb_det_farfield_1d, crb_sto_farfield_1d, crb_stouc_farfield_1d,
                                  ecov_music_1d, ecov_coarray_music_1d)
import doatools.utils.math as UM
import doatools.utils.conversion as UC

check = Check('C14',
              'random call sequences (successful and refused calls) on shared estimators, builders, problems and model objects, '
              'each answer compared with the same call on freshly built objects; every public entry point called with read-only, '
              'strided and ordinary arguments while all arguments and the global random state are fingerprinted before and after; '
              'answers scribbled over between calls; non-trivial = a repeated or shared call was compared or fingerprints were compared',
              ['objects documented as "not copied, do not modify" (constructor arrays, grid axes, live location views) are not '
               'modified by the workload'])


# -- argument menu --------------------------------------------------------------
def menu(c):
    """Returns {name: (callable, [arguments to watch], flags)} for one random setting."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-1, 1))
    arr = arr_of(c, wl)
    m = arr.size
    k = int(rng.integers(1, m))
    kind = gen.pick(rng, 'ff1d', 'ff1d', 'ff2d', 'nf2d')
    src = gen.sources(rng, k, wl, kind)
    if gen.coin(rng, 0.3):
        src.locations.setflags(write=False)
    src1 = gen.ff1d(rng, k, margin=0.9, boundary=False)
    g = gen.grid(rng, kind, wl)
    R = hostile(rng, gen.hermitian(rng, m, gen.pick(rng, 'wishart', 'real')))
    Y = hostile(rng, gen.crandn(rng, m, int(rng.integers(m, 3 * m))))
    d = gen.perturbation_dict(rng, m, wl, kinds=['gain_errors', 'phase_errors', 'location_errors', 'mutual_coupling'])
    for v, _ in d.values():
        if gen.coin(rng):
            v.setflags(write=False)
    out = {}

    def add(name, f, *watch, **flags):
        out[name] = (f, list(watch), flags)

    # model
    add('steering', lambda: arr.steering_matrix(src, wl, perturbations=which), arr, src)
    which = gen.pick(rng, 'all', 'known', 'none')
    add('steering-deriv', lambda: arr.steering_matrix(src1, wl, compute_derivatives=True), arr, src1)
    add('element-locations', lambda: (arr.element_locations, arr.actual_element_locations), arr)
    add('perturbed-copy', lambda: arr.get_perturbed_copy(d, 'x'), arr, d)
    plist = gen.perturbation_list(d)
    add('perturbed-copy-list', lambda: arr.get_perturbed_copy(plist), arr, plist)
    add('free-copy', lambda: arr.get_perturbation_free_copy(), arr)
    loc = hostile(rng, rng.normal(size=(m, 2)))
    add('array-design', lambda: AR.ArrayDesign(loc, 'a', perturbations=d).steering_matrix(src, wl), loc, src, d)
    idx = hostile(rng, rng.integers(-3, 4, (m, 2)))
    bases = hostile(rng, rng.normal(size=(2, 2)))
    dd = [wl / 2, wl / 3]
    add('grid-design', lambda: AR.GridBasedArrayDesign(idx, d0=dd).element_locations, idx, dd)
    add('grid-design-bases', lambda: AR.GridBasedArrayDesign(idx, bases=bases).element_locations, idx, bases)
    add('phase-delay', lambda: src.phase_delay_matrix(loc, wl), src, loc)
    add('phase-delay-deriv', lambda: src1.phase_delay_matrix(loc, wl, True), src1, loc)
    add('spherical', lambda: src.calc_spherical_coords(loc), src, loc)
    if kind == 'ff1d':
        add('as-unit', lambda: src.as_unit('sin'), src)
    elif kind == 'ff2d':
        add('as-unit', lambda: src.as_unit('deg'), src)
    sel = hostile(rng, rng.integers(0, k, 3))
    msk = rng.random(k) < 0.5
    add('index', lambda: (src[:], src[sel], src[msk], src[[0]], src[0:1]), src, sel, msk)
    z = hostile(rng, np.exp(1j * rng.uniform(-2, 2, k)) * 0.9)
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    add('from-z', lambda: SR.FarField1DSourcePlacement.from_z(z, wl, wl / 2, unit), z)
    sl = hostile(rng, rng.uniform(-1, 1, k))
    add('placement', lambda: SR.FarField1DSourcePlacement(sl, 'rad').as_unit('deg'), sl)
    g1 = arr_of(c, wl, grid1d=True)
    wf = CO.WeightFunction1D(g1)
    dif = int(gen.pick(rng, *wf.differences()))
    add('weight-function', lambda: (wf.differences(), wf.weights(), wf.indices_of(dif), wf.get_central_ula_size(), wf(dif),
                                    wf.get_coarray_selection_matrix(), wf.get_coarray_selection_matrix(True)), g1, wf)
    add('location-differences', lambda: (CO.compute_location_differences(loc), CO.compute_unique_location_differences(loc)), loc)
    el = EL.CustomNonisotropicSensor(lambda r, az, e, p: np.stack([np.cos(az), np.sin(e)]), 2)
    vs = AR.ArrayDesign(loc, 'v', element=el)
    add('vector-steering', lambda: (vs.steering_matrix(src, wl), vs.steering_matrix(src, wl, flatten=False)), vs, src)
    # grids
    coord = tuple(int(rng.integers(n)) for n in g.shape)
    add('refine', lambda: (g.create_refined_axes_at(coord, 3, 1), g.create_refined_grid_at(coord, density=3)), g, coord)
    coords = [hostile(rng, rng.integers(0, n, 3)) for n in g.shape]
    add('refine-many', lambda: tuple(g.create_refined_grids_at(*coords, density=2, span=2)), g, coords)
    # spectrum based
    opts = gen.pick(rng, {}, {'return_spectrum': True}, {'return_spectrum': True, 'refine_estimates': True, 'refinement_density': 3, 'refinement_iters': 2})
    for n, E in c11.EST.items():
        if c11.in_domain(n, R, k):
            e = E(arr, wl, g, enable_caching=gen.coin(rng))
            add(n, (lambda e=e: e.estimate(R, k, **opts)), arr, g, R, opts)
    # one-dimensional grid based methods
    m1 = g1.size
    R1 = hostile(rng, gen.hermitian(rng, m1, gen.pick(rng, 'wishart', 'real')))
    b = CoarrayACMBuilder1D(g1)
    meth = gen.pick(rng, 'ss', 'da')
    add('coarray', lambda: (b.transform(R1, meth), b(R1, meth), b.output_size, b.get_virtual_ula()), g1, R1)
    ula = AR.UniformLinearArray(m, wl / 2)
    srcu = SR.FarField1DSourcePlacement(gen.separated_sines(rng, k, -0.9, 0.9), 'sin')
    Au = ula.steering_matrix(srcu, wl)
    Ru = hostile(rng, Au @ Au.conj().T + 0.1 * np.eye(m))
    rm, es = RootMUSIC1D(wl), Esprit1D(wl)
    add('root-music', lambda: rm.estimate(Ru, k, unit=unit), Ru)
    rw = hostile(rng, rng.uniform(0.5, 2, m - 1))
    form = gen.pick(rng, 'ls', 'tls')
    add('esprit', lambda: es.estimate(Ru, k, formulation=form, row_weights=rw, unit=unit), Ru, rw)
    # ML
    ML = gen.pick(rng, AMLEstimator, CMLEstimator, WSFEstimator)
    free = arr_of(c, wl, ndim=2)
    k2 = int(rng.integers(1, min(3, free.size)))
    s2 = gen.ff1d(rng, k2, margin=0.8, boundary=False)
    Rm = hostile(rng, gen.hermitian(rng, free.size, 'wishart'))
    ml = ML(free, wl)
    sol = {'options': {'maxiter': 20}}
    add('ml', lambda: ml.estimate(Rm, s2, **sol), free, s2, Rm, sol, loose=True)
    # preprocessing, source number
    l = int(rng.integers(1, m + 1))
    fb = gen.coin(rng)
    add('spatial-smooth', lambda: spatial_smooth(R, l, fb), R)
    add('l1-svd', lambda: l1_svd(Y, k), Y)
    ev = hostile(rng, np.sort(rng.uniform(0.1, 3, m + 3)))
    add('source-number', lambda: (int(aic(R, 100)), int(mdl(R, 100)), int(aic(ev, 50)), int(mdl(ev, 50)), int(sorte(ev))), R, ev)
    # performance
    srcp = SR.FarField1DSourcePlacement(gen.separated_sines(rng, min(k, 2), -0.8, 0.8), 'sin')
    kp = srcp.size
    p = gen.pick(rng, 1.5, hostile(rng, rng.uniform(0.5, 2, kp)), rng.uniform(0.5, 2, kp).tolist(), hostile(rng, gen.source_cov(rng, kp)))
    P = hostile(rng, gen.source_cov(rng, kp))
    pa = AR.UniformLinearArray(m, wl / 2, perturbations=d)
    mode = gen.pick(rng, 'full', 'diag', 'mean_diag')
    add('crb', lambda: (crb_sto_farfield_1d(pa, srcp, wl, p, 0.5, 10, mode), crb_det_farfield_1d(pa, srcp, wl, P, 0.5, 10, mode),
                        crb_stouc_farfield_1d(pa, srcp, wl, p, 0.5, 10, mode)), pa, srcp, p, P)
    add('ecov', lambda: (ecov_music_1d(pa, srcp, wl, p, 0.5, 10, return_mode=mode),), pa, srcp, p)
    if g1.d0[0] <= wl and wf.get_central_ula_size(True) > kp:
        add('ecov-coarray', lambda: (ecov_coarray_music_1d(g1, srcp, wl, p, 0.5, 10, mode),), g1, srcp, p)
    # utilities
    X = hostile(rng, gen.crandn(rng, 5, 3))
    W = hostile(rng, gen.crandn(rng, 4, 3))
    add('utils', lambda: (UM.khatri_rao(X, W), UM.projm(X), UM.projm(X, True), UM.abs_squared(X), UM.vec(X).copy(),
                          UM.cartesian(ev, sl)), X, W, ev, sl)
    U = hostile(rng, rng.integers(0, 3, (8, 2)).astype(float))
    add('unique-rows', lambda: UM.unique_rows(U, return_index=True, sort=gen_sort), U)
    gen_sort = gen.coin(rng)
    ae = hostile(rng, rng.uniform(-1, 1, (4, 2)))
    u1, u2 = gen.pick(rng, 'rad', 'deg', 'sin'), gen.pick(rng, 'rad', 'deg', 'sin')
    add('conversion', lambda: (UC.convert_angles(sl, u1, u2), UC.ae2broad(ae), UC.cart2spherical(loc)), sl, ae, loc)
    # generators (they may draw from the generator, and only they)
    Cs = hostile(rng, gen.source_cov(rng, k))
    vs_ = hostile(rng, rng.uniform(0.5, 2, k))
    s1 = gen.pick(rng, ComplexStochasticSignal(k, Cs), ComplexStochasticSignal(k, vs_), RandomPhaseSignal(k, vs_), ComplexStochasticSignal(k))
    noise = ComplexStochasticSignal(m, 0.3)
    add('emit', lambda: (s1.emit(6), noise.emit(3)), Cs, vs_, random=True)
    add('snapshots', lambda: get_narrowband_snapshots(arr, src, wl, s1, noise, 7, True), arr, src, Cs, vs_, random=True)
    c.note(array=type(arr).__name__, loc=arr.element_locations, wl=wl, kind=kind, k=k, unit=unit)
    return out


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


@check.scenario(350)
def arguments_and_random_state(c):
    """Every entry point: arguments and the random generator untouched, answers independent of
    what happened to earlier answers."""
    ent = menu(c)
    for name, (f, watch, flags) in ent.items():
        before = fp(watch)
        st = np.random.get_state()
        try:
            r1 = f()
        except Violation:
            raise
        except ValueError as ex:
            if 'read-only' in str(ex):
                c.ok(False, 'accepts-readonly', '{0}: {1}'.format(name, ex))
            raise
        st1 = np.random.get_state()
        c.ok(fp(watch) == before, 'argument-modified', lambda: '{0} changed its arguments'.format(name))
        if not flags.get('random'):
            c.ok(same_state(st, st1), 'random-state', lambda: '{0} used the global random generator'.format(name))
        keep = freeze(r1)
        scribble(r1)
        c.ok(fp(watch) == before, 'answer-aliases-argument', lambda: '{0}: writing to the answer changed an argument'.format(name))
        if flags.get('random'):
            np.random.set_state(st)
        r2 = freeze(f())
        alike(c, keep, r2, 'repeatable', name, 1e-5 if flags.get('loose') else 1e-9)
        c.ok(fp(watch) == before, 'argument-modified', lambda: '{0} changed its arguments (second call)'.format(name))


# -- histories --------------------------------------------------------------------
def fresh_setting(c):
    s = c.rng.integers(2**31)

    def build():
        c2 = type('X', (), {})()
        c2.rng = np.random.default_rng(int(s))
        rng = c2.rng
        wl = float(10 ** rng.uniform(-1, 1))
        arr = arr_of(c2, wl)
        kind = gen.pick(rng, 'ff1d', 'ff1d', 'ff2d', 'nf2d')
        g = gen.grid(rng, kind, wl)
        return wl, arr, g
    return build


@check.scenario(700, big=True)
def spectrum_estimators(c):
    rng = c.rng
    build = fresh_setting(c)
    wl, arr, g = build()
    m = arr.size
    caching = gen.pick(rng, True, True, False)
    pool = {n: E(arr, wl, g, enable_caching=caching) for n, E in c11.EST.items()}
    c.note(array=type(arr).__name__, loc=arr.element_locations, wl=wl, grid=[np.asarray(a) for a in g.axes], caching=caching)
    hist = []
    for step in range(int(rng.integers(3, 9))):
        n = gen.pick(rng, *pool)
        R = gen.hermitian(rng, m, gen.pick(rng, 'wishart', 'real'))
        k = int(rng.integers(1, m))
        act = gen.pick(rng, 'ok', 'ok', 'ok', 'bad-shape', 'bad-k', 'touch-grid')
        if act == 'bad-shape':
            c.refused(lambda: pool[n].estimate(np.eye(m + 1), k), 'refusal')
        elif act == 'bad-k' and n in ('music', 'minnorm'):
            c.refused(lambda: pool[n].estimate(R, m), 'refusal')
        elif act == 'touch-grid':
            g.source_placement
            g.create_refined_grid_at(tuple(0 for _ in g.shape), density=2)
            arr.steering_matrix(g.source_placement, wl * 1.5)
            if gen.coin(rng):
                arr.get_perturbed_copy({'gain_errors': (rng.uniform(-0.3, 0.3, m), True)}).steering_matrix(g.source_placement, wl)
            g.source_placement.as_unit(g.units[0])
        elif c11.in_domain(n, R, k):
            opt = {'return_spectrum': True}
            if gen.coin(rng, 0.4):
                opt.update(refine_estimates=True, refinement_density=int(rng.integers(2, 5)), refinement_iters=int(rng.integers(1, 3)))
            Rc = R.copy()
            r = pool[n].estimate(Rc, k, **opt)
            keep = freeze(r)
            Rc[...] = 0
            scribble(r)
            wl2, arr2, g2 = build()
            f = freeze(c11.EST[n](arr2, wl2, g2, enable_caching=gen.coin(rng)).estimate(R, k, **opt))
            hist.append((n, k))
            alike(c, f[2], keep[2], 'spectrum-history', '{0} after {1}'.format(n, hist), 1e-9)
            c.eq(keep[0], f[0], 'flag-history')
            alike(c, f[1], keep[1], 'estimate-history', '{0} after {1}'.format(n, hist), 1e-9)
    c.note(history=[str(h) for h in hist])


@check.scenario(400)
def shared_grid(c):
    """Several estimators, arrays and wavelengths sharing one grid and one array."""
    rng = c.rng
    build = fresh_setting(c)
    wl, arr, g = build()
    m = arr.size
    d = gen.perturbation_dict(rng, m, wl, known=True, kinds=['gain_errors', 'phase_errors'])
    arrs = [arr, arr.get_perturbed_copy(d), arr.get_perturbation_free_copy()]
    wls = [wl, wl * float(rng.uniform(0.5, 2))]
    combos = [(int(rng.integers(3)), int(rng.integers(2)), gen.pick(rng, *c11.EST)) for _ in range(4)]
    ests = [c11.EST[n](arrs[i], wls[j], g) for i, j, n in combos]
    c.note(array=type(arr).__name__, loc=arr.element_locations, combos=[list(x) for x in combos])
    for _ in range(6):
        t = int(rng.integers(4))
        i, j, n = combos[t]
        R = gen.hermitian(rng, m, 'wishart')
        k = int(rng.integers(1, m))
        if not c11.in_domain(n, R, k):
            continue
        r = ests[t].estimate(R, k, return_spectrum=True)
        wl2, arr2, g2 = build()
        fa = [lambda: arr2, lambda: arr2.get_perturbed_copy(d), lambda: arr2.get_perturbation_free_copy()][i]()
        f = c11.EST[n](fa, wls[j], g2).estimate(R, k, return_spectrum=True)
        alike(c, freeze(f), freeze(r), 'shared-objects', '{0}'.format(combos[t]))
        scribble(r)
    c.ok(fp(arrs[0]) == fp(build()[1]), 'shared-array')


@check.scenario(250, big=True)
def other_estimators(c):
    """Rooting, coarray, ML estimators reused over different sizes and options."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-1, 1))
    rm, es = RootMUSIC1D(wl), Esprit1D(wl)
    g1 = arr_of(c, wl, grid1d=True)
    b = CoarrayACMBuilder1D(g1)
    arr = arr_of(c, wl, ndim=2, min_size=4)
    mls = {n: E(arr, wl) for n, E in (('aml', AMLEstimator), ('cml', CMLEstimator), ('wsf', WSFEstimator))}
    c.note(wl=wl, g1=g1.element_locations, loc=arr.element_locations)
    hist = []
    for step in range(6):
        what = gen.pick(rng, 'root', 'esprit', 'coarray', 'ml', 'ml', 'ml')
        hist.append(what)
        if what in ('root', 'esprit'):
            m = int(rng.integers(4, 9))
            k = int(rng.integers(1, m - 1))
            A = AR.UniformLinearArray(m, wl / 2).steering_matrix(SR.FarField1DSourcePlacement(gen.separated_sines(rng, k, -0.9, 0.9), 'sin'), wl)
            R = A @ A.conj().T + 0.1 * np.eye(m)
            unit = gen.pick(rng, 'rad', 'deg', 'sin')
            if what == 'root':
                kw = {'unit': unit}
                r, f = rm.estimate(R, k, **kw), RootMUSIC1D(wl).estimate(R, k, **kw)
            else:
                kw = {'unit': unit, 'formulation': gen.pick(rng, 'ls', 'tls'), 'row_weights': gen.pick(rng, 'default', 'none', rng.uniform(0.5, 2, m - 1))}
                r, f = es.estimate(R, k, **kw), Esprit1D(wl).estimate(R, k, **kw)
            alike(c, freeze(f), freeze(r), 'rooting-history', what)
        elif what == 'coarray':
            R = gen.hermitian(rng, g1.size, 'wishart')
            meth = gen.pick(rng, 'ss', 'da')
            if gen.coin(rng, 0.3):
                c.refused(lambda: b.transform(R, 'zz'), 'refusal')
            r, f = b.transform(R, meth), CoarrayACMBuilder1D(g1).transform(R, meth)
            alike(c, freeze(f), freeze(r), 'coarray-history', what)
            scribble(r)
        else:
            n = gen.pick(rng, *mls)
            k = int(rng.integers(1, 3))
            if gen.coin(rng, 0.2):
                c.refused(lambda: mls[n].estimate(np.eye(arr.size + 1), gen.ff1d(rng, 1)), 'refusal')
            s = gen.ff1d(rng, k, margin=0.8, boundary=False) if gen.coin(rng, 0.7) else gen.nf2d(rng, k, wl)
            R = gen.hermitian(rng, arr.size, 'wishart', scale=1.0)
            opt = {'options': {'maxiter': 15}}
            keep_s = fp(s)
            r = mls[n].estimate(R, s, **opt)
            f = type(mls[n])(arr, wl).estimate(R, s, **opt)
            alike(c, freeze(f), freeze(r), 'ml-history', n, 1e-5)
            c.ok(fp(s) == keep_s, 'ml-guess-modified')
            if r[0]:
                last = mls[n].get_last_estimates()
                alike(c, freeze(r[1]), freeze(last), 'last-estimates', n)
                scribble(last)
                alike(c, freeze(f[1]), freeze(r[1]), 'last-estimates-aliased', n, 1e-5)
                alike(c, freeze(f[1]), freeze(mls[n].get_last_estimates()), 'last-estimates-aliased', n, 1e-5)
                scribble(r[1])
                alike(c, freeze(f[1]), freeze(mls[n].get_last_estimates()), 'last-estimates-aliased', n, 1e-5)
                c.ok(fp(s) == keep_s, 'ml-guess-aliased')
    c.note(hist=hist)


def achieved(form, B, R, p, l, known):
    """Objective reached by the powers p (with the best noise power if that is free)."""
    E = R - (B * p) @ B.conj().T
    t, m = float(np.real(np.trace(E))), B.shape[0]
    res = lambda s: float(np.sum(np.abs(E - s * np.eye(m)) ** 2))
    if form == 'penalizedl1':
        s = 0.0 if known else max(0.0, (t - l) / m)
        return 0.5 * res(s) + l * (np.abs(p).sum() + s)
    if form == 'constrainedl1':
        s = 0.0 if known else max(0.0, min(t / m, l - np.abs(p).sum()))
        return res(s)
    if known:
        return np.abs(p).sum()
    disc = (t / m) ** 2 - (res(0) - (l * 1.001) ** 2) / m
    s = max(0.0, t / m - np.sqrt(max(disc, 0.0)))
    return np.abs(p).sum() + s


@check.scenario(24)
def sparse_estimators(c):
    """Reused optimisation problems: previous parameters, warm starts and failures leave no trace."""
    rng = c.rng
    wl = 1.0
    m = int(rng.integers(3, 5))
    arr = AR.UniformLinearArray(m, wl / 2)
    g = GR.FarField1DSearchGrid(size=int(rng.integers(8, 16)), unit='sin')
    form = gen.pick(rng, 'penalizedl1', 'constrainedl1', 'constrainedl2')
    known = gen.coin(rng)
    n = 2
    if c.index % 2 == 0:
        e = SparseCovarianceMatching(arr, wl, g, noise_known=known, formulation=form)
    else:
        e = GroupSparseEstimator(arr, wl, g, n)
        form = 'group'
    c.note(m=m, form=form, known=known, grid=g.size)
    for step in range(3):
        A = arr.steering_matrix(g.source_placement[[int(rng.integers(g.size))]], wl)
        if form == 'group':
            X = A @ gen.crandn(rng, 1, n) * 3 + 0.1 * gen.crandn(rng, m, n)
            args, kw = (X, 1, float(rng.uniform(0.2, 1))), {}
            mk = lambda: GroupSparseEstimator(arr, wl, g, n)
        else:
            sig = float(rng.uniform(0.1, 0.5))
            R = A @ A.conj().T * float(rng.uniform(1, 3)) + sig * np.eye(m)
            R = R + 0.02 * gen.hermitian(rng, m, 'wishart', scale=1.0)
            l = {'penalizedl1': rng.uniform(0.1, 1), 'constrainedl1': rng.uniform(1, 3), 'constrainedl2': rng.uniform(0.3, 1)}[form]
            args, kw = (R, 1, float(l)), ({'sigma': sig} if known else {})
            mk = lambda: SparseCovarianceMatching(arr, wl, g, noise_known=known, formulation=form)
            if gen.coin(rng, 0.3):
                c.refused(lambda: e.estimate(np.eye(m + 1), 1, 1.0, **kw), 'refusal')
            if known and gen.coin(rng, 0.3):
                c.refused(lambda: e.estimate(R, 1, 1.0), 'refusal')
        so = {'solver': 'CLARABEL'}
        before = fp((args, so))
        r = e.estimate(*args, solver_options=so, return_spectrum=True, **kw)
        c.ok(fp((args, so)) == before, 'argument-modified', form)
        f = mk().estimate(*args, solver_options=so, return_spectrum=True, **kw)
        if form == 'group':
            c.close(r[2], f[2], 'sparse-history', rtol=0, atol=5e-2 * max(1.0, np.abs(f[2]).max()), msg=form)
        else:
            # minimisers need not be unique: compare what they achieve
            B = arr.steering_matrix(g.source_placement, wl)
            Rn = R - sig * np.eye(m) if known else R
            a, b = (achieved(form, B, Rn, q[2], l, known) for q in (r, f))
            c.close(a, b, 'sparse-history', rtol=2e-3, atol=2e-3, msg=form)
        scribble(r)


@check.scenario(30)
def problems(c):
    rng = c.rng
    m, k, n = int(rng.integers(3, 6)), int(rng.integers(3, 8)), int(rng.integers(1, 3))
    form = gen.pick(rng, 'penalizedl1', 'constrainedl1')
    nn, cx = gen.coin(rng), gen.coin(rng)
    p1 = L1RegularizedLeastSquaresProblem(m, k, form, nn)
    p2 = L21RegularizedLeastSquaresProblem(m, k, n, cx)
    c.note(m=m, k=k, n=n, form=form, nn=nn, cx=cx)
    for step in range(3):
        A, b, l = hostile(rng, rng.normal(size=(m, k))), hostile(rng, rng.normal(size=(m, 1))), float(rng.uniform(0.1, 1))
        before = fp((A, b))
        x = p1.solve(A, b, l)
        c.ok(fp((A, b)) == before, 'argument-modified')
        y = L1RegularizedLeastSquaresProblem(m, k, form, nn).solve(A, b, l)
        o = lambda v: 0.5 * float(np.sum((A @ np.reshape(v, (-1, 1)) - b) ** 2)) + (l * float(np.abs(v).sum()) if form == 'penalizedl1' else 0)
        c.close(o(x), o(y), 'problem-history', rtol=1e-3, atol=1e-4)
        x[...] = 5
        Ac = hostile(rng, gen.crandn(rng, m, k) if cx else rng.normal(size=(m, k)))
        B = hostile(rng, gen.crandn(rng, m, n) if cx else rng.normal(size=(m, n)))
        before = fp((Ac, B))
        X = p2.solve(Ac, B, l)
        c.ok(fp((Ac, B)) == before, 'argument-modified')
        Yx = L21RegularizedLeastSquaresProblem(m, k, n, cx).solve(Ac, B, l)
        o = lambda V: 0.5 * float(np.sum(np.abs(Ac @ V - B) ** 2)) + l * float(np.linalg.norm(V, axis=1).sum())
        c.close(o(X), o(Yx), 'problem-history', rtol=1e-3, atol=1e-4)
        X[...] = 5


@check.scenario(300)
def generators(c):
    """Interleaved emissions: reproducible from the seed, no dependence on earlier emissions."""
    rng = c.rng
    k = int(rng.integers(1, 5))
    C = gen.source_cov(rng, k)
    v = rng.uniform(0.5, 2, k)
    mk = gen.pick(rng, lambda: ComplexStochasticSignal(k, C), lambda: ComplexStochasticSignal(k, v), lambda: ComplexStochasticSignal(k, 2.0),
                  lambda: RandomPhaseSignal(k, v), lambda: RandomPhaseSignal(k, 2.0))
    s = mk()
    c.note(k=k, C=C, v=v)
    for _ in range(4):
        n = int(rng.integers(1, 20))
        seed = int(rng.integers(2**31))
        if gen.coin(rng):
            s.emit(3)
        np.random.seed(seed)
        a = s.emit(n)
        keep = a.copy()
        np.random.seed(seed)
        b = mk().emit(n)
        c.close(a, b, 'emission-history', rtol=1e-12, atol=1e-12)
        b2 = s.emit(n)
        c.ok(not np.array_equal(b2, keep), 'new-samples')
        c.same(a, keep, 'emission-buffer')
        a[...] = 0


history.register(check, tuple(twins.FAMILIES), None, near=700)


@check.scenario(700)
def object_sessions(c):
    history.session(c)
