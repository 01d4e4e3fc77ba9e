"""History monitors shared by the checks: sessions of calls on one object compared with
fresh objects, answers kept and re-examined, and near-identical requests compared with
a process without any history (vlib.pristine)."""
import copy
import numpy as np
from vlib import gen, pristine, twins
import doatools.model.arrays as AR
import doatools.model.sources as SR
import doatools.model.coarray as CO
import doatools.model.perturbations as PE
import doatools.estimation.grid as GR
from doatools.estimation.coarray import CoarrayACMBuilder1D
from doatools.estimation.music import RootMUSIC1D
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.ml import AMLEstimator, CMLEstimator, WSFEstimator


# -- fingerprints -------------------------------------------------------------
def fp(x, depth=0):
    """Observable value of an argument."""
    if isinstance(x, np.ndarray):
        return ('nd', str(x.dtype), x.shape, x.tobytes(), bool(x.flags.writeable))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(fp(i, depth + 1) for i in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, fp(v, depth + 1)) for k, v in x.items())
    if isinstance(x, SR.SourcePlacement):
        return ('src', type(x).__name__, x.units, fp(x.locations))
    if isinstance(x, GR.SearchGrid):
        return ('grid', type(x).__name__, x.units, x.shape, fp(tuple(x.axes)), fp(x.source_placement))
    if isinstance(x, PE.ArrayPerturbation):
        return ('pert', type(x).__name__, x.is_known, fp(x.params))
    if isinstance(x, AR.ArrayDesign):
        g = (fp(x.element_indices), fp(x.d0), fp(x.bases)) if isinstance(x, AR.GridBasedArrayDesign) else ()
        return ('array', type(x).__name__, x.name, x.size, x.ndim, fp(x.element_locations), g, fp(list(x.perturbations)), id(x.element))
    if isinstance(x, CO.WeightFunction1D):
        return ('wf', fp(x.differences()), fp(x.weights()))
    return repr(x)


def freeze(x):
    """Independent deep copy of an answer."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return tuple(freeze(i) for i in x)
    if isinstance(x, SR.SourcePlacement):
        return ('src', type(x), x.units, x.locations.copy())
    if isinstance(x, GR.SearchGrid):
        return ('grid', type(x), x.units, tuple(np.array(a) for a in x.axes))
    if isinstance(x, AR.ArrayDesign):
        return ('array', fp(x))
    return x


def scribble(x):
    """What a caller may do with an answer it owns."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = x.dtype.type(77) if x.dtype.kind != 'b' else True
    elif isinstance(x, (list, tuple)):
        for i in x:
            scribble(i)
        if isinstance(x, list):
            x.append(12345)
    elif isinstance(x, SR.SourcePlacement):
        scribble(x.locations)


def alike(c, a, b, mech, msg, rtol=1e-9):
    """a, b: frozen answers."""
    if isinstance(a, tuple):
        c.ok(isinstance(b, tuple) and len(a) == len(b), mech, lambda: '{0} structure {1!r} / {2!r}'.format(msg, a, b))
        for i, j in zip(a, b):
            alike(c, i, j, mech, msg, rtol)
    elif isinstance(a, np.ndarray):
        c.ok(isinstance(b, np.ndarray) and b.shape == a.shape and a.dtype.kind == b.dtype.kind, mech, lambda: '{0} {1!r} / {2!r}'.format(msg, a, b))
        if np.array_equal(a, b):
            c.ok(True, mech)
            return
        if a.dtype.kind in 'fc':
            # equally undefined on both sides is no difference
            und = np.isnan(a) & np.isnan(b)
            a, b = a[~und], b[~und]
        fin = np.abs(a[np.isfinite(a)]) if a.size else a
        s = float(fin.max()) if fin.size else 0.0
        c.close(b, a, mech, rtol=rtol * 10, atol=rtol * s, msg=msg)
    else:
        c.ok(type(a) is type(b) and (a == b or a is b), mech, lambda: '{0} {1!r} / {2!r}'.format(msg, a, b))


def hostile(rng, x):
    y = gen.relayout(rng, x)
    if gen.coin(rng, 0.4):
        y.setflags(write=False)
    return y


def arr_of(c, wl, ndim=None, pert=True, grid1d=False, min_size=3, max_size=7):
    rng = c.rng
    for _ in range(100):
        kw = (lambda m: {'perturbations': gen.perturbation_dict(rng, m, wl)}) if pert and gen.coin(rng) else {}
        if grid1d:
            a = gen.array_1d_grid(rng, wl, {}, max_size, ambiguous=False)
        else:
            a = gen.array(rng, wl, ndim, kw, max_size)
        if a.size >= min_size:
            return a
    raise AssertionError


# -- hidden state: near-identical requests -------------------------------------------


def near_identical(c, families):
    """A request and variants of it that differ in one facet, in one process, compared with
    the same request in a process that has not executed anything before."""
    rng = c.rng
    fam = gen.pick(rng, *families)
    seed = int(rng.integers(2**31))
    changes = [None] + [int(rng.integers(2**31)) for _ in range(4)]
    order = [changes[int(i)] for i in rng.permutation(5)] + [changes[int(rng.integers(5))]]
    base = twins.spec_of(fam, seed, None)
    c.note(family=fam, changes=[str(twins.tweak(base, ch)[1]) for ch in order if ch is not None], **base)
    for ch in order:
        a = twins.answer(fam, seed, ch)
        st, b = pristine.evaluate(twins.answer, fam, seed, ch)
        if st != 'ok':
            raise AssertionError(b)
        facet = 'base' if ch is None else str(twins.tweak(base, ch)[1])
        alike(c, b, a, 'hidden-state', '{0}, variant {1}'.format(fam, facet), 1e-6 if fam == 'ml' else 1e-9)


# -- sessions: one object, many calls ---------------------------------------------------
def private(x):
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, SR.SourcePlacement):
        return x[:]
    return x


def session_kinds(c):
    """name -> (make object, draw arguments, call(object, arguments)); arguments are fresh arrays."""
    from checks import c11
    rng = c.rng
    wl = float(10 ** rng.uniform(-1, 1))
    U = ('rad', 'deg', 'sin')
    m = int(rng.integers(4, 8))
    ula = AR.UniformLinearArray(m, wl / 2)
    g1 = arr_of(c, wl, grid1d=True, pert=False)
    arr = arr_of(c, wl, min_size=4)
    n = arr.size
    kind = gen.pick(rng, 'ff1d', 'ff2d', 'nf2d')
    gr = gen.grid(rng, kind, wl, 7)
    som = lambda f: f() if gen.coin(rng) else None

    def opts(**kw):
        """A random subset of options; the others keep their default."""
        return {k: v() for k, v in kw.items() if gen.coin(rng)}

    def exact_cov():
        k = int(rng.integers(1, m - 1))
        A = ula.steering_matrix(SR.FarField1DSourcePlacement(gen.separated_sines(rng, k, -.3, .3), 'sin'), wl)
        return A @ A.conj().T + .1 * np.eye(m), k

    out = {}
    out['root-music'] = (lambda: RootMUSIC1D(wl), lambda: exact_cov() + (opts(d0=lambda: wl * float(rng.uniform(.3, .5)), unit=lambda: gen.pick(rng, *U)),),
                         lambda o, a: o.estimate(a[0], a[1], **a[2]))
    def es_args():
        R, k = exact_cov()
        d = opts(d0=lambda: wl * float(rng.uniform(.3, .5)), unit=lambda: gen.pick(rng, *U), formulation=lambda: gen.pick(rng, 'ls', 'tls'))
        if gen.coin(rng, .3):
            d['displacement'] = int(rng.integers(1, max(2, m - k)))
        if gen.coin(rng):
            d['row_weights'] = gen.pick(rng, 'default', 'none', rng.uniform(.5, 2, m - d.get('displacement', 1)))
        return R, k, d
    out['esprit'] = (lambda: Esprit1D(wl), es_args, lambda o, a: o.estimate(a[0], a[1], **a[2]))
    out['coarray'] = (lambda: CoarrayACMBuilder1D(g1), lambda: (gen.hermitian(rng, g1.size, 'wishart'), opts(method=lambda: gen.pick(rng, 'ss', 'da'))),
                      lambda o, a: gen.pick(np.random.default_rng(len(a[1])), o.transform, o)(a[0], **a[1]))
    diffs = CO.WeightFunction1D(g1).differences()
    out['weights'] = (lambda: CO.WeightFunction1D(g1), lambda: (int(gen.pick(rng, *diffs)), gen.coin(rng)),
                      lambda o, a: (o(a[0]), o.indices_of(a[0]), o.get_central_ula_size(a[1]), o.get_coarray_selection_matrix(a[1]), o.differences(), o.weights(), len(o)))
    for nm, E in c11.EST.items():
        def draw(nm=nm):
            while True:
                R, k = gen.hermitian(rng, n, 'wishart'), int(rng.integers(1, n))
                if c11.in_domain(nm, R, k):
                    return R, k, opts(return_spectrum=lambda: gen.coin(rng, .8), refine_estimates=lambda: gen.coin(rng),
                                      refinement_density=lambda: int(rng.integers(2, 4)), refinement_iters=lambda: int(rng.integers(1, 3)))
        out[nm] = ((lambda E=E: E(arr, wl, gr, enable_caching=caching)), draw, lambda o, a: o.estimate(a[0], a[1], **a[2]))
    caching = gen.coin(rng, .7)
    for nm, E in (('aml', AMLEstimator), ('cml', CMLEstimator), ('wsf', WSFEstimator)):
        def mldraw():
            R, k = exact_cov()
            k = min(k, 2)
            s = SR.FarField1DSourcePlacement(gen.separated_sines(rng, k, -.6, .6), 'sin')
            if gen.coin(rng):
                s = s.as_unit('rad')
            return R + .1 * gen.hermitian(rng, m, 'wishart', 1.0), s, opts(options=lambda: {'maxiter': int(rng.integers(1, 12))})
        out[nm] = ((lambda E=E: E(ula, wl)), mldraw, lambda o, a: o.estimate(a[0], a[1], **a[2]))
    pl = gen.sources(rng, 5, wl, kind)
    loc = [rng.normal(size=(4, int(d))) * wl for d in rng.integers(1, 4, 3)]
    out['placement'] = (lambda: pl[:], lambda: (loc[int(rng.integers(3))].copy(), wl * float(gen.pick(rng, 1.0, 1.5)), int(rng.integers(5)), np.array(rng.integers(0, 5, 3))),
                        lambda o, a: (o.phase_delay_matrix(a[0], a[1]), o.calc_spherical_coords(a[0]), o[a[2]:].locations, o[a[3]].locations))
    pert = gen.perturbation_dict(rng, m, wl, kinds=['gain_errors', 'phase_errors', 'mutual_coupling'])
    def adraw():
        s = gen.ff1d(rng, int(rng.integers(1, 5)), margin=.9, boundary=False)
        return s, wl * float(gen.pick(rng, 1.0, 1.0, 1.5)), opts(perturbations=lambda: gen.pick(rng, 'all', 'known', 'none'), compute_derivatives=lambda: gen.coin(rng))
    out['array'] = (lambda: AR.UniformLinearArray(m, wl / 2, perturbations=pert), adraw, lambda o, a: o.steering_matrix(a[0], a[1], **a[2]))
    out['array-copy'] = (lambda: AR.UniformLinearArray(m, wl / 2, perturbations=pert), lambda: (gen.perturbation_dict(rng, m, wl), gen.ff1d(rng, 2, margin=.9)),
                         lambda o, a: (o.get_perturbed_copy(a[0]).steering_matrix(a[1], wl), o.steering_matrix(a[1], wl), o.get_perturbation_free_copy().steering_matrix(a[1], wl)))
    out['grid'] = (lambda: copy.deepcopy(gr), lambda: (tuple(int(rng.integers(x)) for x in gr.shape), opts(density=lambda: int(rng.integers(1, 5)), span=lambda: int(rng.integers(1, 3)))),
                   lambda o, a: (o.create_refined_grid_at(a[0], **a[1]), o.source_placement[0:3].locations, o.shape, o.size))
    return out, wl


def refill(old, new):
    """Writes the new argument into the buffer used before, if it fits (a caller's work array)."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype:
        old[...] = new
        return old
    if isinstance(old, SR.FarField1DSourcePlacement) and isinstance(new, SR.FarField1DSourcePlacement) and old.size == new.size \
            and old.units == new.units and old.locations.dtype == new.locations.dtype:
        old.locations[...] = new.locations
        return old
    return new


def session(c, names=None):
    """One object, random calls with random subsets of the options, reused argument buffers,
    refused calls in between, answers kept and re-examined at the end."""
    rng = c.rng
    kinds, wl = session_kinds(c)
    name = gen.pick(rng, *(names or kinds))
    mk, draw, call = kinds[name]
    loose = 1e-5 if name in ('aml', 'cml', 'wsf') else 1e-9
    o = mk()
    kept = []
    buf = None
    c.note(kind=name, wl=wl)
    hist = []
    for step in range(int(rng.integers(3, 8))):
        a = draw()
        if gen.coin(rng, .15) and name not in ('weights', 'grid', 'placement', 'array', 'array-copy'):
            c.refused(lambda: call(o, (np.eye(3)[:, :2] if name in ('root-music',) else np.eye(2),) + tuple(a[1:])) if name != 'esprit' else o.estimate(np.eye(4), 9), 'refusal')
        fresh = freeze(call(mk(), tuple(private(x) for x in a)))
        if buf is not None and gen.coin(rng, .6):
            a = tuple(refill(x, y) for x, y in zip(buf, a))
        buf = a
        r = call(o, a)
        hist.append([_s(x) for x in a])
        alike(c, fresh, freeze(r), 'session', '{0}, step {1}'.format(name, step), loose)
        if gen.coin(rng, .3):
            scribble(r)
        else:
            kept.append((step, r, freeze(r)))
        for st, raw, was in kept:
            alike(c, was, freeze(raw), 'answer-changed', '{0}: answer of step {1} after step {2}'.format(name, st, step), 0)
    c.note(hist=hist)


def _s(x):
    return x.shape if isinstance(x, np.ndarray) else (x.locations if isinstance(x, SR.SourcePlacement) else str(x)[:80])


def register(check, families=(), kinds=(), near=300, sess=300):
    """Adds history scenarios to a check."""
    if families:
        check.pristine = True

        def near_identical_requests(c):
            near_identical(c, families)
        check.scenario(near)(near_identical_requests)
    if kinds:
        def object_sessions(c):
            session(c, kinds)
        check.scenario(sess)(object_sessions)
