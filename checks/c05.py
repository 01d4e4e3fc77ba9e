from math import gcd
import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.arrays as AR
import doatools.model.array_elements as EL

check = Check('C05',
              'every design over its parameter space (exhaustive for small sizes and all 20 MRLAs, random and large '
              'otherwise), float/int/list spacings, keyword and positional forms, perturbation and element keywords; '
              'non-trivial = sensor positions were compared with positions computed from the definition',
              ['apertures of the minimum-redundancy designs are at least the published (restricted) ones'])

# Published apertures of the tabulated minimum-redundancy designs (1..20 sensors).
MRLA_APERTURE = [0, 1, 3, 6, 9, 13, 17, 23, 29, 35, 41, 49, 57, 65, 73, 83, 93, 103, 113, 125]


def d0_of(rng):
    return gen.pick(rng, 0.5, 1.0, 1, 2, float(10 ** rng.uniform(-4, 4)), np.float64(0.25))


def common(c, rng, make, size, ndim):
    """Keyword arguments supported by all designs; make(**kw) creates the design."""
    elem = gen.pick(rng, None, EL.CustomNonisotropicSensor(lambda r, az, el, p: np.cos(az)), EL.IsotropicScalarSensor())
    name = gen.pick(rng, None, 'my array', '')
    perts = gen.perturbation_dict(rng, size, 1.0)
    form = gen.pick(rng, 'none', 'dict', 'list')
    kw = {}
    if elem is not None:
        kw['element'] = elem
    if name is not None:
        kw['name'] = name
    if form == 'dict':
        kw['perturbations'] = perts
    elif form == 'list':
        kw['perturbations'] = gen.perturbation_list(perts)
    else:
        perts = {}
    a = make(**kw)
    c.ok(a.element is elem if elem is not None else (a.element.is_isotropic and a.element.is_scalar), 'element')
    if name is not None:
        c.eq(a.name, name, 'name')
    else:
        c.ok(type(a).__name__ in ('ArrayDesign', 'GridBasedArrayDesign') or (isinstance(a.name, str) and len(a.name) > 0), 'default-name', lambda: repr(a.name))
    c.eq(a.size, size, 'size')
    c.eq(a.output_size, size, 'output-size')
    c.eq(a.ndim, ndim, 'ndim')
    c.eq(a.is_perturbed, len(perts) > 0, 'perturbations')
    c.eq({ref.pert_kind(p) for p in a.perturbations}, set(perts), 'perturbations')
    for p in a.perturbations:
        v, k = perts[ref.pert_kind(p)]
        c.same(p.params, v, 'perturbation-params')
        c.eq(bool(p.is_known), bool(k), 'perturbation-known')
    exp = a.element_locations
    if 'location_errors' in perts:
        exp = ref.apply_location_errors(exp, perts['location_errors'][0])
    c.close(a.actual_element_locations, exp, 'actual-locations', rtol=1e-13, atol=1e-300)
    c.eq(a.actual_ndim, exp.shape[1], 'actual-ndim')
    # what is handed out can be changed freely
    x = a.element_locations
    keep = x.copy()
    x += 1
    c.same(a.element_locations, keep, 'locations-are-a-copy')
    y = a.actual_element_locations
    y += 1
    c.same(a.element_locations, keep, 'locations-are-a-copy')
    c.close(a.actual_element_locations, exp, 'actual-locations-are-a-copy', rtol=1e-13, atol=1e-300)
    if hasattr(a, 'element_indices'):
        i = a.element_indices
        keep = np.array(i)
        try:
            i += 1
        except ValueError:
            pass
        c.same(a.element_indices, keep, 'indices-are-a-copy')
    return a


def grid1(c, a, idx, d0):
    idx = np.asarray(idx).reshape((-1, 1))
    c.close(a.element_locations, idx * float(d0), 'positions', rtol=1e-14)
    c.same(a.element_indices, idx, 'indices')
    c.close(a.d0, np.array([float(d0)]), 'd0', rtol=1e-15)
    c.close(a.bases, np.array([[float(d0)]]), 'bases', rtol=1e-15)


@check.scenario(900)
def ula(c):
    rng = c.rng
    n = c.index % 40 + 1 if c.index < 300 else int(rng.integers(40, 500))
    d0 = d0_of(rng)
    c.note(n=n, d0=d0)
    a = common(c, rng, lambda **kw: AR.UniformLinearArray(n, d0, **kw) if c.index % 2 else AR.UniformLinearArray(n=n, d0=d0, **kw), n, 1)
    grid1(c, a, np.arange(n), d0)


@check.scenario(900)
def nested(c):
    rng = c.rng
    n1, n2 = (c.index % 14 + 1, c.index // 14 % 14 + 1) if c.index < 200 else (int(rng.integers(1, 60)), int(rng.integers(1, 60)))
    d0 = d0_of(rng)
    c.note(n1=n1, n2=n2, d0=d0)
    a = common(c, rng, lambda **kw: AR.NestedArray(n1, n2, d0, **kw), n1 + n2, 1)
    grid1(c, a, list(range(n1)) + [k * (n1 + 1) - 1 for k in range(1, n2 + 1)], d0)
    c.eq((a.n1, a.n2), (n1, n2), 'parameters')


@check.scenario(1200)
def coprime(c):
    rng = c.rng
    m, n = (c.index % 13 + 1, c.index // 13 % 13 + 1) if c.index < 169 * 2 else (int(rng.integers(1, 40)), int(rng.integers(1, 40)))
    mode = gen.pick(rng, 'm', '2m', 'M', '2M', None)
    d0 = d0_of(rng)
    c.note(m=m, n=n, d0=d0, mode=mode)
    args = (m, n, d0) if mode is None else (m, n, d0, mode)
    if gcd(m, n) != 1:
        c.refused(lambda: AR.CoPrimeArray(*args), 'non-coprime')
        return
    p, q = min(m, n), max(m, n)
    top = p if (mode or '2m').lower() == 'm' else 2 * p
    idx = [k * p for k in range(q)] + [k * q for k in range(1, top)]
    a = common(c, rng, lambda **kw: AR.CoPrimeArray(*args, **kw), len(idx), 1)
    grid1(c, a, idx, d0)
    c.eq(tuple(a.coprime_pair), (p, q), 'coprime-pair')
    c.eq(a.mode, (mode or '2m').lower(), 'mode')


@check.scenario(200)
def mrla(c):
    rng = c.rng
    n = c.index % 20 + 1
    d0 = d0_of(rng)
    c.note(n=n, d0=d0)
    a = common(c, rng, lambda **kw: AR.MinimumRedundancyLinearArray(n, d0, **kw), n, 1)
    idx = a.element_indices
    c.eq(idx.shape, (n, 1), 'shape')
    x = [int(v) for v in idx[:, 0]]
    c.eq(len(set(x)), n, 'distinct')
    c.eq(min(x), 0, 'starts-at-origin')
    lags = {abs(p - q) for p in x for q in x}
    c.eq(lags, set(range(max(x) + 1)), 'complete-lags')
    c.ok(max(x) >= MRLA_APERTURE[n - 1], 'aperture', lambda: 'aperture {0}'.format(max(x)))
    grid1(c, a, x, d0)
    c.refused(lambda: AR.MinimumRedundancyLinearArray(gen.pick(rng, 0, -1, 21, 22, 100), d0), 'mrla-range')


@check.scenario(900)
def ura(c):
    rng = c.rng
    m, n = (c.index % 8 + 1, c.index // 8 % 8 + 1) if c.index < 64 * 3 else (int(rng.integers(1, 25)), int(rng.integers(1, 25)))
    dx = d0_of(rng)
    dy = dx if gen.coin(rng) else d0_of(rng)
    d0 = dx if (dx == dy and gen.coin(rng)) else gen.pick(rng, [dx, dy], (dx, dy), np.array([dx, dy]))
    c.note(m=m, n=n, d0=d0)
    a = common(c, rng, lambda **kw: AR.UniformRectangularArray(m, n, d0, **kw), m * n, 2)
    idx = np.array([(i, j) for i in range(m) for j in range(n)])
    c.close(a.element_locations, idx * np.array([float(dx), float(dy)]), 'positions', rtol=1e-14)
    c.same(a.element_indices, idx, 'indices')
    c.close(a.d0, np.array([float(dx), float(dy)]), 'd0', rtol=1e-15)
    c.close(a.bases, np.diag([float(dx), float(dy)]), 'bases', rtol=1e-15)
    c.eq(tuple(a.shape), (m, n), 'shape')


@check.scenario(600)
def uca(c):
    rng = c.rng
    n = c.index % 40 + 1 if c.index < 200 else int(rng.integers(40, 400))
    r = d0_of(rng)
    c.note(n=n, r=r)
    a = common(c, rng, lambda **kw: AR.UniformCircularArray(n, r, **kw), n, 2)
    t = 2 * ref.PI * np.arange(n).astype(ref.LD) / n
    exp = float(r) * np.stack([np.cos(t), np.sin(t)], 1).astype(float)
    c.close(a.element_locations, exp, 'positions', atol=1e-13 * float(r) * max(1, n / 50))
    c.eq(a.radius, r, 'radius')


@check.scenario(1500, big=True)
def grids(c):
    rng = c.rng
    d = int(rng.integers(1, 4))
    m = gen.size(rng, 1, 15)
    idx = rng.integers(-10, 20, (m, d))
    form = gen.pick(rng, 'scalar', 'list', 'bases')
    if form == 'bases':
        e = int(rng.integers(d, 4))
        bases = rng.normal(size=(d, e)) if gen.coin(rng) else rng.integers(-3, 4, (d, e)).astype(float)
        make = lambda **kw: AR.GridBasedArrayDesign(idx, bases=bases, **kw)
        if gen.coin(rng, 0.3):   # d0 is ignored when bases are given
            make = lambda **kw: AR.GridBasedArrayDesign(idx, 123.0, bases=bases, **kw)
        exp_d0 = np.sqrt((bases ** 2).sum(1))
    else:
        e = d
        if form == 'scalar':
            d0 = d0_of(rng)
            exp_d0 = np.full(d, float(d0))
        else:
            exp_d0 = np.array([float(d0_of(rng)) for _ in range(d)])
            d0 = gen.pick(rng, exp_d0.tolist(), tuple(exp_d0.tolist()), exp_d0.copy())
        bases = np.diag(exp_d0)
        make = lambda **kw: AR.GridBasedArrayDesign(idx, d0, **kw)
    c.note(form=form, idx=idx, bases=bases)
    a = common(c, rng, make, m, e)
    exp = np.zeros((m, e))
    for i in range(m):
        for j in range(d):
            exp[i] += idx[i, j] * bases[j]
    c.close(a.element_locations, exp, 'positions', rtol=1e-13, atol=1e-13 * np.abs(bases).max() * 20)
    c.same(a.element_indices, idx, 'indices')
    c.close(a.d0, exp_d0, 'd0', rtol=1e-14)
    c.close(a.bases, bases, 'bases', rtol=1e-15)


@check.scenario(900, big=True)
def custom(c):
    rng = c.rng
    d = int(rng.integers(1, 4))
    m = gen.size(rng, 1, 15)
    x = rng.normal(size=(m, d)) if gen.coin(rng, 0.6) else rng.integers(-9, 10, (m, d))
    given = gen.pick(rng, x.copy(), x.tolist(), np.asfortranarray(x), gen.relayout(rng, x))
    if d == 1 and gen.coin(rng):
        given = gen.pick(rng, x[:, 0].copy(), x[:, 0].tolist())
    c.note(x=x, type=type(given).__name__)
    name = 'custom'
    a = AR.ArrayDesign(given, name)
    c.same(a.element_locations, x, 'positions')
    c.eq((a.size, a.ndim, a.name, a.output_size, a.actual_ndim), (m, d, name, m, d), 'attributes')
    common(c, rng, lambda **kw: AR.ArrayDesign(given, kw.pop('name', 'n'), **kw), m, d)


@check.scenario(600)
def refused(c):
    rng = c.rng
    m = int(rng.integers(1, 6))
    c.note(m=m)
    c.refused(lambda: AR.ArrayDesign(rng.normal(size=(m, 2, 2)), 'x'), 'too-many-axes')
    c.refused(lambda: AR.ArrayDesign(rng.normal(size=(m, int(rng.integers(4, 7)))), 'x'), 'too-many-dims')
    c.refused(lambda: AR.ArrayDesign(rng.normal(size=(m, 4)).tolist(), 'x'), 'too-many-dims')
    d = int(rng.integers(1, 4))
    idx = rng.integers(0, 5, (m, d))
    c.refused(lambda: AR.GridBasedArrayDesign(idx, np.ones(d + int(rng.integers(1, 3)))), 'd0-length')
    c.refused(lambda: AR.GridBasedArrayDesign(idx, np.ones((d, d)) if d > 1 else np.ones((1, 1))), 'd0-shape')
    bd = gen.pick(rng, *[x for x in (1, 2, 3, 4) if x != d])
    c.refused(lambda: AR.GridBasedArrayDesign(idx, bases=rng.normal(size=(bd, 3))), 'bases-rows')
    c.refused(lambda: AR.CoPrimeArray(2, 3, 1.0, gen.pick(rng, '3m', '', 'n', 'mm')), 'coprime-mode')
    k = int(rng.integers(2, 6))
    c.refused(lambda: AR.CoPrimeArray(2 * k, 3 * k, 1.0), 'non-coprime')
    c.refused(lambda: AR.GridBasedArrayDesign(rng.integers(0, 5, (m, 4)), 1.0), 'too-many-dims')
    c.refused(lambda: AR.UniformLinearArray(m, 1.0, perturbations={'gain_errors': (np.zeros(m + 1), True)}), 'size-mismatch')
    c.refused(lambda: AR.UniformLinearArray(m, 1.0, perturbations={'gain': (np.zeros(m), True)}), 'unknown-perturbation')


history.register(check, ('lattice',), ())
