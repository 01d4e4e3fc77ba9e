import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.sources as S
import doatools.model.arrays as AR
import doatools.model.perturbations as PT
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling

check = Check('C03',
              'random arrays with random imperfection sets (kinds, known flags, order, dimensions, dtypes, dict/list/copy '
              'construction) under every filter, and random sequences of copy operations against a shadow model of the '
              'perturbation table; non-trivial = at least one imperfection present or one copy operation performed',
              ['factors other than location errors are composed in the order reported by the array itself'])

NAMES = ['location_errors', 'gain_errors', 'phase_errors', 'mutual_coupling']


def queries(c, arr, shadow, nominal, tag=''):
    """Everything the array says about itself against the shadow table {name: (params, known)}."""
    c.eq(arr.is_perturbed, len(shadow) > 0, 'query-is-perturbed', tag)
    listed = arr.perturbations
    c.eq(sorted(ref.pert_kind(p) for p in listed), sorted(shadow), 'query-list', tag)
    for n in NAMES:
        cls = gen.perturbation_class(n)
        c.eq(arr.has_perturbation(cls), n in shadow, 'query-has', tag + n)
        if n in shadow:
            c.eq(bool(arr.is_perturbation_known(cls)), bool(shadow[n][1]), 'query-known', tag + n)
            c.same(arr.get_perturbation_params(cls), shadow[n][0], 'query-params', tag + n)
    for p in listed:
        c.same(p.params, shadow[ref.pert_kind(p)][0], 'query-list-params', tag)
        c.eq(bool(p.is_known), bool(shadow[ref.pert_kind(p)][1]), 'query-list-known', tag)
    c.same(arr.element_locations, nominal, 'nominal-locations', tag)
    exp = nominal
    if 'location_errors' in shadow:
        exp = ref.apply_location_errors(nominal, shadow['location_errors'][0])
    c.close(arr.actual_element_locations, exp, 'actual-locations', rtol=1e-14, atol=1e-300, msg=tag)
    c.eq(arr.actual_ndim, exp.shape[1], 'actual-ndim', tag)
    c.eq(arr.ndim, nominal.shape[1], 'ndim', tag)


def order_of(arr, shadow):
    return [(ref.pert_kind(p), shadow[ref.pert_kind(p)][0], shadow[ref.pert_kind(p)][1]) for p in arr.perturbations]


def steer(c, arr, shadow, src, wl, tag='', which=None):
    for w in ([which] if which else ['all', 'known', 'none']):
        sel = ref.select(order_of(arr, shadow), w)
        A, tol, _ = ref.perturbed_steering(arr.element_locations, sel, src, wl)
        if float(np.max(tol)) > 1e-3:
            c.skip('phase too large for float64')
        got = arr.steering_matrix(src, wl, perturbations=w)
        c.close(got, A, 'steering-' + w, atol=tol, rtol=1e-12, msg=tag)
    if which is None:
        c.close(arr.steering_matrix(src, wl), arr.steering_matrix(src, wl, perturbations='all'), 'default-filter', rtol=1e-13, atol=1e-13)


@check.scenario(3000, big=True)
def model(c):
    rng = c.rng
    wl = gen.wavelength(rng)
    perts = {}
    how = gen.pick(rng, 'dict', 'list', 'copy-dict', 'copy-list')

    def kw(m):
        perts.update(gen.perturbation_dict(rng, m, wl, wild=True))
        if how == 'dict':
            return {'perturbations': dict(perts)}
        if how == 'list':
            return {'perturbations': gen.perturbation_list(perts)}
        return {}

    arr = gen.array(rng, wl, kw=kw)
    if how == 'copy-dict':
        arr = arr.get_perturbed_copy(dict(perts))
    elif how == 'copy-list':
        arr = arr.get_perturbed_copy(gen.perturbation_list(perts))
    src = gen.sources(rng, gen.heavy_int(rng, 1, 12), wl)
    c.note(how=how, array=type(arr).__name__, loc=arr.element_locations, wl=wl, src=src.locations, unit=src.units[0],
           perts={n: [v, k] for n, (v, k) in perts.items()})
    c.eq([ref.pert_kind(p) for p in arr.perturbations], list(perts), 'application-order')
    queries(c, arr, perts, arr.element_locations)
    steer(c, arr, perts, src, wl)


@check.scenario(1500, big=True)
def dtypes(c):
    """Integer / complex / list parameters, dimension mismatches of location errors."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-1, 1))
    ndim = int(rng.integers(1, 4))
    m = gen.size(rng, 1, 7)
    iloc = gen.coin(rng)
    locs = rng.integers(-4, 5, (m, ndim)) if iloc else rng.normal(size=(m, ndim)) * wl
    kind = gen.pick(rng, *NAMES)
    if kind == 'location_errors':
        ed = int(rng.integers(1, 4))
        v = rng.integers(-2, 3, (m, ed)) if gen.coin(rng) else rng.normal(size=(m, ed)) * 0.3
    elif kind in ('gain_errors', 'phase_errors'):
        v = rng.integers(0, 3, m) if gen.coin(rng) else rng.normal(size=m)
    else:
        v = gen.pick(rng, rng.integers(-1, 3, (m, m)), rng.normal(size=(m, m)), gen.crandn(rng, m, m))
    if gen.coin(rng):
        v = gen.relayout(rng, v)
    known = gen.coin(rng)
    given = v.tolist() if gen.coin(rng, 0.3) else v
    before = np.array(v)
    p = gen.perturbation_class(kind)(given, known) if gen.coin(rng) else gen.perturbation_class(kind)(given, known=known)
    arr = AR.ArrayDesign(locs.tolist() if gen.coin(rng, 0.3) else locs, 'a', perturbations=[p])
    src = gen.sources(rng, gen.size(rng, 1, 5), wl)
    c.note(kind=kind, v=before, loc=locs, wl=wl, src=src.locations, as_list=isinstance(given, list))
    shadow = {kind: (before, known)}
    queries(c, arr, shadow, np.asarray(locs).reshape(m, ndim))
    steer(c, arr, shadow, src, wl)


@check.scenario(2000, big=True)
def copies(c):
    """Random histories of copy operations against a shadow model."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-1, 1))
    perts = {}

    def kw(m):
        if gen.coin(rng):
            perts.update(gen.perturbation_dict(rng, m, wl, wild=True))
        return {'perturbations': dict(perts)}

    arr = gen.array(rng, wl, kw=kw)
    m = arr.size
    nominal = arr.element_locations
    pool = [(arr, dict(perts), arr.name)]
    src = gen.sources(rng, gen.size(rng, 1, 5), wl)
    ops = []
    for _ in range(int(rng.integers(2, 7))):
        base, shadow, name = pool[int(rng.integers(len(pool)))]
        new_name = gen.pick(rng, None, 'renamed')
        if gen.coin(rng, 0.25):
            new = base.get_perturbation_free_copy(new_name) if gen.coin(rng) else base.get_perturbation_free_copy()
            if new.name == 'renamed' or new_name is None:
                pass
            exp_name = new.name if new.name in (name, 'renamed') else name
            sh = {}
            ops.append('free')
        else:
            d = gen.perturbation_dict(rng, m, wl, wild=True)
            if shadow and gen.coin(rng, 0.35):
                # the same imperfections again: equal parameters, possibly with another flag
                d = {n: (np.array(v), (not kn) if gen.coin(rng, 0.7) else kn) for n, (v, kn) in shadow.items() if gen.coin(rng, 0.7)}
            given = d if gen.coin(rng) else gen.perturbation_list(d)
            new = base.get_perturbed_copy(given, new_name) if new_name else base.get_perturbed_copy(given)
            exp_name = new_name or name
            sh = dict(shadow)
            sh.update(d)
            ops.append('+' + ','.join(d))
        c.ok(new is not base, 'copy-is-new')
        c.ok(type(new) is type(base), 'copy-type')
        c.eq(new.name, exp_name, 'copy-name')
        pool.append((new, sh, exp_name))
    c.note(array=type(arr).__name__, loc=nominal, ops=ops, perts=list(perts), wl=wl, src=src.locations)
    for i, (a, sh, nm) in enumerate(pool):
        queries(c, a, sh, nominal, 'copy {0}: '.format(i))
        c.eq(a.name, nm, 'copy-name')
        steer(c, a, sh, src, wl, 'copy {0}'.format(i), gen.pick(rng, 'all', 'known', 'none'))
        for attr in ('d0', 'bases', 'element_indices', 'shape', 'radius', 'n1', 'n2', 'coprime_pair', 'mode'):
            if hasattr(arr, attr):
                c.same(getattr(a, attr), getattr(arr, attr), 'copy-attribute', attr)
        c.ok(a.element is arr.element, 'copy-element')


@check.scenario(800, big=True)
def names_of_copies(c):
    rng = c.rng
    wl = 1.0
    arr = gen.array(rng, wl)
    p = gen.perturbation_dict(rng, arr.size, wl)
    c.note(array=type(arr).__name__, m=arr.size, p=list(p), loc=arr.element_locations)
    c.eq(arr.get_perturbation_free_copy('x').name, 'x', 'copy-name')
    c.eq(arr.get_perturbation_free_copy().name, arr.name, 'copy-name')
    c.eq(arr.get_perturbed_copy(p, 'y').name, 'y', 'copy-name')
    c.eq(arr.get_perturbed_copy(p).name, arr.name, 'copy-name')
    c.eq(arr.is_perturbed, False, 'original-untouched')
    c.eq(arr.get_perturbed_copy({}).is_perturbed, False, 'empty')
    c.eq(arr.get_perturbed_copy([]).is_perturbed, False, 'empty')


@check.scenario(1500, big=True)
def refused(c):
    rng = c.rng
    wl = 1.0
    ndim = int(rng.integers(1, 4))
    m = gen.size(rng, 2, 8)
    locs = rng.normal(size=(m, ndim))
    arr = AR.ArrayDesign(locs, 'a')
    bad = m + gen.pick(rng, -1, 1, 3)
    kind = gen.pick(rng, *NAMES)
    v = {'location_errors': rng.normal(size=(bad, int(rng.integers(1, 4)))), 'gain_errors': rng.normal(size=bad),
         'phase_errors': rng.normal(size=bad), 'mutual_coupling': np.eye(bad)}[kind]
    cls = gen.perturbation_class(kind)
    known = gen.coin(rng)
    c.note(kind=kind, m=m, bad=bad, loc=locs)
    c.refused(lambda: AR.ArrayDesign(locs, 'a', perturbations=[cls(v, known)]), 'size-mismatch', msg=kind)
    c.refused(lambda: AR.ArrayDesign(locs, 'a', perturbations={kind: (v, known)}), 'size-mismatch', msg=kind)
    c.refused(lambda: arr.get_perturbed_copy({kind: (v, known)}), 'size-mismatch', msg=kind)
    c.refused(lambda: arr.get_perturbed_copy([cls(v, known)]), 'size-mismatch', msg=kind)
    good = gen.perturbation_dict(rng, m, wl, kinds=[kind])[kind][0]
    c.refused(lambda: AR.ArrayDesign(locs, 'a', perturbations=[cls(good), cls(good, True)]), 'duplicate-kind')
    other = gen.perturbation_dict(rng, m, wl, kinds=[n for n in NAMES if n != kind])
    lst = gen.perturbation_list(other)
    lst.insert(int(rng.integers(len(lst) + 1)), cls(good))
    lst.append(cls(good))
    c.refused(lambda: AR.ArrayDesign(locs, 'a', perturbations=lst), 'duplicate-kind')
    src = gen.ff1d(rng, 2)
    a2 = AR.ArrayDesign(locs, 'a', perturbations=[cls(good, known)])
    c.refused(lambda: a2.steering_matrix(src, wl, perturbations=gen.pick(rng, 'unknown', 'ALL', '', 'any')), 'unknown-filter')
    # malformed parameters
    c.refused(lambda: LocationErrors(rng.normal(size=m)), 'malformed')
    c.refused(lambda: LocationErrors(rng.normal(size=(m, 4))), 'malformed')
    c.refused(lambda: GainErrors(rng.normal(size=(m, 1))), 'malformed')
    c.refused(lambda: PhaseErrors(rng.normal(size=(m, 1))), 'malformed')
    c.refused(lambda: MutualCoupling(rng.normal(size=m)), 'malformed')
    c.refused(lambda: MutualCoupling(rng.normal(size=(m, m + 1))), 'malformed')
    # the array keeps working after refusals
    queries(c, arr, {}, locs)


@check.scenario(600, big=True)
def custom_and_identity(c):
    """User-defined perturbations and perturbations that change nothing."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-1, 1))
    arr = gen.array(rng, wl)
    m = arr.size
    src = gen.sources(rng, gen.size(rng, 1, 6), wl)
    A0 = arr.steering_matrix(src, wl)
    ident = {'location_errors': (np.zeros((m, int(rng.integers(1, 4)))), gen.coin(rng)), 'gain_errors': (np.zeros(m), gen.coin(rng)),
             'phase_errors': (np.zeros(m), gen.coin(rng)), 'mutual_coupling': (np.eye(m), gen.coin(rng))}
    names = list(ident)
    rng.shuffle(names)
    ident = {n: ident[n] for n in names[:int(rng.integers(1, 5))]}
    c.note(array=type(arr).__name__, loc=arr.element_locations, ident=list(ident), src=src.locations, wl=wl)
    c.close(arr.get_perturbed_copy(ident).steering_matrix(src, wl), A0, 'identity', atol=1e-9)
    z = complex(rng.normal(), rng.normal())

    class Scale(PT.ArrayPerturbation):
        def perturb_steering_matrix(self, A, DA):
            return self.params * A, [self.params * X for X in DA]

    known = gen.coin(rng)
    b = arr.get_perturbed_copy([Scale(z, known)])
    c.close(b.steering_matrix(src, wl), z * A0, 'custom', atol=1e-9, rtol=1e-12)
    c.close(b.steering_matrix(src, wl, perturbations='known'), z * A0 if known else A0, 'custom', atol=1e-9, rtol=1e-12)
    c.eq(b.has_perturbation(Scale), True, 'custom')
    # imperfections are unknown unless declared known
    for n, (v, _) in gen.perturbation_dict(rng, m, wl).items():
        cls = gen.perturbation_class(n)
        d = cls(v)
        c.eq(bool(d.is_known), False, 'default-unknown', n)
        q = arr.get_perturbed_copy([d])
        c.eq(bool(q.is_perturbation_known(cls)), False, 'default-unknown', n)
        c.close(q.steering_matrix(src, wl, perturbations='known'), A0, 'default-unknown', atol=1e-9, msg=n)
    c.eq(bool(Scale(z).is_known), False, 'default-unknown')


history.register(check, ('array',), ('array', 'array-copy'))
