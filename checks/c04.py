import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.sources as S
import doatools.model.arrays as AR
import doatools.model.array_elements as EL

check = Check('C04',
              'random arrays of user-defined scalar/vector elements with smooth random responses in range, azimuth and '
              'elevation, all source types, location errors (known/unknown) and, for scalar elements, gain/phase/coupling '
              'errors; the recorded arguments of every response query are compared too; non-trivial = a response function '
              'was really queried and the resulting tensor compared entry by entry',
              ['element responses are evaluated element-wise'])


class Response:
    """Element-wise response with L outputs; records what it is asked."""

    def __init__(self, rng, L, wl):
        self.L = L
        self.c = rng.normal(size=(L, 8))
        self.s = rng.uniform(1, 3, L)
        self.wl = wl
        self.calls = []

    def one(self, l, r, az, el):
        c = self.c[l]
        with np.errstate(all='ignore'):
            g = np.exp(-np.asarray(r) / (self.s[l] * 10 * self.wl))
        return (c[0] + c[1] * np.cos(az) * np.cos(el) + c[2] * np.sin(az) * np.cos(el) + c[3] * np.sin(el)
                + c[4] * g) + 1j * (c[5] * np.cos(2 * az) * np.cos(el) ** 2 + c[6] * np.sin(el) ** 2 + c[7] * g)

    def value(self, r, az, el):
        if self.L == 1:
            return self.one(0, r, az, el)
        return np.stack([self.one(l, r, az, el) for l in range(self.L)])

    def __call__(self, r, az, el, pol):
        self.calls.append((np.array(r), np.array(az), np.array(el), pol))
        return self.value(r, az, el)


def spherical(locs, src):
    """(M,K) ranges, azimuths, elevations as complex-safe reference, plus (far) infinite ranges."""
    kind, unit = ref.kind_of(src), src.units[0]
    m = locs.shape[0]
    if kind in ('ff1d', 'ff2d'):
        u = ref.directions(kind, src.locations, unit).astype(float)
        k = u.shape[0]
        if kind == 'ff1d':
            az = (ref.PI / 2 - ref.to_rad_ld(src.locations, unit)).astype(float)
            el = np.zeros(k)
        else:
            x = ref.to_rad_ld(src.locations, unit).astype(float)
            az, el = x[:, 0], x[:, 1]
        t = lambda v: np.tile(v, (m, 1))
        return np.full((m, k), np.inf), t(az), t(el)
    d = (ref.pad3(src.locations)[None, :, :] - ref.pad3(locs)[:, None, :]).astype(float)
    rho = np.hypot(d[..., 0], d[..., 1])
    return np.sqrt((d ** 2).sum(-1)), np.arctan2(d[..., 1], d[..., 0]), np.arctan2(d[..., 2], rho)


def make_element(rng, wl, L=None):
    L = L or gen.pick(rng, 1, 1, 2, 3, 4, 6)
    f = Response(rng, L, wl)
    if L == 1 and gen.coin(rng):
        return EL.CustomNonisotropicSensor(f), f, L
    return EL.CustomNonisotropicSensor(f, L) if gen.coin(rng) else EL.CustomNonisotropicSensor(f, output_size=L), f, L


def tensor(locs, src, wl, f, L):
    r, az, el = spherical(locs, src)
    F = f.value(r, az, el)
    A0 = ref.steering(locs, src, wl)
    tol = ref.steering_tol(locs, src, wl)
    return F * A0, np.abs(F) * tol + 1e-11 * (1 + np.abs(F).max(initial=0)), F


@check.scenario(5000, big=True)
def steering(c):
    rng = c.rng
    wl = float(10 ** rng.uniform(-2, 2))
    elem, f, L = make_element(rng, wl)
    perts = {}

    def kw(m):
        kinds = [n for n in ('location_errors', 'gain_errors', 'phase_errors', 'mutual_coupling')
                 if gen.coin(rng) and (L == 1 or n == 'location_errors')]
        perts.update(gen.perturbation_dict(rng, m, wl, kinds=kinds))
        return {'element': elem, 'perturbations': dict(perts)}

    arr = gen.array(rng, wl, kw=kw, max_size=8)
    k = gen.heavy_int(rng, 1, 20)
    src = gen.sources(rng, k, wl)
    if src.units[0] == 'm' and np.abs(src.locations).max() > 1e2 * wl * 20:
        c.skip('range so large that directions lose precision')
    which = gen.pick(rng, 'all', 'known', 'none')
    c.note(array=type(arr).__name__, loc=arr.element_locations, L=L, wl=wl, src=src.locations, unit=src.units[0], which=which,
           perts={n: [v, kn] for n, (v, kn) in perts.items()}, coef=f.c)
    sel = ref.select([(n, v, kn) for n, (v, kn) in perts.items()], which)
    locs = arr.element_locations.astype(float)
    for n, v, _ in sel:
        if n == 'location_errors':
            locs = ref.apply_location_errors(locs, v)
    if ref.kind_of(src) == 'nf2d':
        r, _, _ = spherical(locs, src)
        d = ref.pad3(src.locations)[None, :, :2] - ref.pad3(locs)[:, None, :2]
        if r.min() < 1e-6 * wl or float(np.sqrt((d ** 2).sum(-1)).min()) < 1e-6 * wl:
            c.skip('source on top of a sensor: direction undefined')
    T, tol, F = tensor(locs, src, wl, f, L)
    for n, v, _ in sel:
        if n == 'gain_errors':
            M = np.diag(1.0 + v)
        elif n == 'phase_errors':
            M = np.diag(np.exp(1j * v))
        elif n == 'mutual_coupling':
            M = v
        else:
            continue
        T = M @ T
        tol = np.abs(M) @ tol
    m = arr.size
    c.eq(arr.output_size, L * m, 'output-size')
    c.ok(arr.element is elem, 'element')
    f.calls.clear()
    got = arr.steering_matrix(src, wl, perturbations=which, flatten=False)
    c.close(got, T, 'tensor', atol=tol, rtol=1e-11)
    c.ok(len(f.calls) >= 1, 'response-was-queried')
    for (r, az, el, pol) in f.calls:
        c.ok(pol is None, 'no-polarization')
        if src.is_far_field:
            c.ok(bool(np.all(np.isinf(r)) and np.all(r > 0)), 'far-range')
        else:
            c.ok(bool(np.all(np.isfinite(r)) and np.all(r > 0)), 'near-range')
    flat = arr.steering_matrix(src, wl, perturbations=which) if gen.coin(rng) else arr.steering_matrix(src, wl, False, which, True)
    if L > 1:
        exp = np.concatenate([T[l] for l in range(L)], axis=0)
        et = np.concatenate([np.broadcast_to(tol, T.shape)[l] for l in range(L)], axis=0)
    else:
        exp, et = T, tol
    c.close(flat, exp, 'flattened', atol=et, rtol=1e-11)


@check.scenario(1500, big=True)
def isotropic_equivalence(c):
    """Elements whose response is one behave exactly like the default element;
    user-defined element classes (isotropic vector) are weighted too."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-1, 1))
    L = gen.pick(rng, 1, 2, 3)
    perts = {}

    def kw(m):
        perts.update(gen.perturbation_dict(rng, m, wl, kinds=None if L == 1 else [n for n in ('location_errors',) if gen.coin(rng)]))
        return {'perturbations': dict(perts)}

    base = gen.array(rng, wl, kw=kw, max_size=6)
    src = gen.sources(rng, gen.size(rng, 1, 6), wl)
    w = rng.normal(size=L)

    class Iso(EL.ArrayElement):
        output_size = property(lambda self: L)
        is_isotropic = property(lambda self: True)
        is_polarized = property(lambda self: False)

        def _calc_spatial_response(self, r, az, el, polarization):
            return np.ones_like(r) if L == 1 else np.stack([x * np.ones_like(r) for x in w])

    form = gen.pick(rng, 'custom', 'class')
    if form == 'custom':
        f = (lambda r, az, el, p: np.ones(np.shape(r))) if L == 1 else (lambda r, az, el, p: np.stack([x * np.ones(np.shape(r)) for x in w]))
        e = EL.CustomNonisotropicSensor(f, L)
    else:
        e = Iso()
    arr = AR.ArrayDesign(base.element_locations, 'x', dict(perts), e)
    c.note(form=form, L=L, loc=base.element_locations, src=src.locations, wl=wl, perts=list(perts), w=w)
    which = gen.pick(rng, 'all', 'known', 'none')
    A = base.steering_matrix(src, wl, perturbations=which)
    T = arr.steering_matrix(src, wl, perturbations=which, flatten=False)
    if L == 1:
        c.close(T, A, 'unit-response', atol=1e-12, rtol=1e-12)
        c.close(arr.steering_matrix(src, wl, perturbations=which), A, 'unit-response', atol=1e-12, rtol=1e-12)
    else:
        c.close(T, w[:, None, None] * A[None], 'weighted-outputs', atol=1e-12, rtol=1e-12)
        c.close(arr.steering_matrix(src, wl, perturbations=which), np.kron(w[:, None], A), 'weighted-outputs', atol=1e-12, rtol=1e-12)
    c.eq(arr.output_size, L * arr.size, 'output-size')
    c.eq(e.is_scalar, L == 1, 'is-scalar')
    c.eq(base.output_size, base.size, 'output-size')


@check.scenario(1200, big=True)
def vector_refuses_scalar_errors(c):
    rng = c.rng
    wl = 1.0
    L = gen.size(rng, 2, 7)
    elem, f, _ = make_element(rng, wl, L)
    arr = gen.array(rng, wl, kw={'element': elem}, max_size=6)
    m = arr.size
    kind = gen.pick(rng, 'gain_errors', 'phase_errors', 'mutual_coupling')
    size = gen.pick(rng, m, m, L * m)
    d = gen.perturbation_dict(rng, size, wl, kinds=[kind])
    le = gen.perturbation_dict(rng, m, wl, kinds=['location_errors'])
    full = dict(le)
    full.update(d)
    if gen.coin(rng):
        full = dict(reversed(list(full.items())))
    c.note(L=L, array=type(arr).__name__, loc=arr.element_locations, kind=kind, size=size, v=d[kind][0])
    given = full if gen.coin(rng) else gen.perturbation_list(full)
    c.refused(lambda: arr.get_perturbed_copy(d), 'vector-refuses-' + kind)
    c.refused(lambda: arr.get_perturbed_copy(given), 'vector-refuses-' + kind)
    c.refused(lambda: AR.ArrayDesign(arr.element_locations, 'v', d, elem), 'vector-refuses-' + kind)
    c.refused(lambda: AR.ArrayDesign(arr.element_locations, 'v', perturbations=gen.perturbation_list(d), element=elem), 'vector-refuses-' + kind)
    # location errors are fine, and the array still works
    b = arr.get_perturbed_copy(le)
    src = gen.ff1d(rng, 3)
    T, tol, _ = tensor(b.actual_element_locations, src, wl, f, L)
    c.close(b.steering_matrix(src, wl, flatten=False), T, 'tensor', atol=tol, rtol=1e-11)


@check.scenario(1500, big=True)
def responses(c):
    """Direct queries of element responses."""
    rng = c.rng
    wl = 1.0
    shape = gen.pick(rng, (), (3,), (2, 4), (2, 3, 2), (1, 1), (5, 1))
    r = rng.uniform(0.5, 20, shape)
    if gen.coin(rng, 0.3):
        r = np.full(shape, np.inf)
    az = rng.uniform(-np.pi, np.pi, shape)
    el = rng.uniform(-np.pi / 2, np.pi / 2, shape)
    if shape == ():
        r, az, el = float(r), float(az), float(el)
    elem, f, L = make_element(rng, wl)
    c.note(shape=list(shape), L=L, az=az, el=el, r=r)
    c.close(elem.calc_spatial_response(r, az, el), f.value(r, az, el), 'custom-response', rtol=1e-12, atol=1e-12)
    c.eq(elem.output_size, L, 'element-output-size')
    c.eq(elem.is_scalar, L == 1, 'element-scalar')
    c.eq(elem.is_isotropic, False, 'element-isotropic')
    c.eq(elem.is_polarized, False, 'element-polarized')
    iso = gen.pick(rng, EL.ISOTROPIC_SCALAR_SENSOR, EL.IsotropicScalarSensor())
    c.close(iso.calc_spatial_response(r, az, el), np.ones(shape), 'isotropic-ones', rtol=0, atol=0)
    c.eq((iso.output_size, iso.is_scalar, iso.is_isotropic, iso.is_polarized), (1, True, True, False), 'isotropic-attributes')
    # inconsistent shapes
    bad = rng.uniform(0, 1, gen.pick(rng, (3, 3), (7,), (2, 4, 1), (1,)))
    for e in (elem, iso):
        args = [r, az, el]
        args[int(rng.integers(3))] = bad
        c.refused(lambda: e.calc_spatial_response(*args), 'inconsistent-shapes')
        pol = rng.normal(size=shape + (2,))
        c.refused(lambda: e.calc_spatial_response(r, az, el, pol), 'unsupported-polarization')
    seen = []

    def g(r, az, el, p):
        seen.append(p)
        return np.zeros(np.shape(r)) if p is None else p[..., 0] * np.cos(az)

    pe = EL.CustomNonisotropicSensor(g, polarized=True)
    c.eq(pe.is_polarized, True, 'element-polarized')
    pol = rng.normal(size=shape + (int(rng.integers(1, 4)),))
    c.close(pe.calc_spatial_response(r, az, el, pol), pol[..., 0] * np.cos(az), 'polarized-response', rtol=1e-12)
    c.ok(seen[-1] is not None and np.array_equal(seen[-1], pol), 'polarization-passed')
    wrong = rng.normal(size=(3,) + shape + (2,))
    c.refused(lambda: pe.calc_spatial_response(r, az, el, wrong), 'polarization-shape')


history.register(check, ('array', 'sources'), ())
