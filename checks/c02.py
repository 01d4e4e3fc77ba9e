import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.sources as S
import doatools.model.arrays as AR
import doatools.model.array_elements as EL

check = Check('C02',
              'random arrays x units x perturbation sets x filters; each returned derivative column is compared with the '
              'analytic derivative of the geometric model in extended precision and with a finite difference of the real '
              'steering matrix; non-trivial = at least one sensor off the origin so that the derivative is not zero',
              ['sine unit on arrays with y-extent is exercised up to |sin|=1-1e-8 (the derivative diverges at 1)'])


def make_sources(rng, k, ndim):
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    margin = 1.0
    if unit == 'sin':
        margin = 1.0 if ndim == 1 else gen.pick(rng, 0.9, 1 - 10 ** rng.uniform(-8, -2))
        if k and gen.coin(rng, 0.3):      # close to endfire, where the derivative grows without bound
            x = gen.ff1d_locations(rng, k, unit, margin)
            sel = rng.random(k) < 0.6
            x[sel] = np.sign(x[sel] + 1e-12) * np.minimum(1 - 10 ** rng.uniform(-8, -1, int(sel.sum())), margin if ndim > 1 else 1.0)
            return S.FarField1DSourcePlacement(x, unit)
    return gen.ff1d(rng, k, unit, margin)


@check.scenario(4000, big=True)
def derivative(c):
    rng = c.rng
    wl = gen.wavelength(rng)
    ndim = int(rng.integers(1, 4))
    perts = {}

    def kw(m):
        if gen.coin(rng, 0.65):
            perts.update(gen.perturbation_dict(rng, m, wl, wild=True))
        return {'perturbations': perts if gen.coin(rng) else gen.perturbation_list(perts)}

    arr = gen.array(rng, wl, ndim, kw=kw)
    ndim_eff = max([ndim] + [v.shape[1] for n, (v, _) in perts.items() if n == 'location_errors'])
    src = make_sources(rng, gen.heavy_int(rng, 1, 20), ndim_eff)
    which = gen.pick(rng, 'all', 'known', 'none')
    c.note(array=type(arr).__name__, loc=arr.element_locations, unit=src.units[0], src=src.locations, wl=wl,
           perts={n: [v, k] for n, (v, k) in perts.items()}, which=which)
    sel = ref.select([(n, v, k) for n, (v, k) in perts.items()], which)
    A, tol, D, loc = ref.perturbed_steering(arr.element_locations, sel, src, wl, deriv=True)
    if float(np.max(tol)) > 1e-3:
        c.skip('phase too large for float64')
    if which == 'all' and gen.coin(rng):
        r = arr.steering_matrix(src, wl, True) if gen.coin(rng) else arr.steering_matrix(src, wl, compute_derivatives=True)
    else:
        r = arr.steering_matrix(src, wl, True, which) if gen.coin(rng) else \
            arr.steering_matrix(src, wl, compute_derivatives=True, perturbations=which)
    c.ok(isinstance(r, tuple) and len(r) == 2, 'result-structure', 'expected (A, DA)')
    c.close(r[0], A, 'steering', atol=tol)
    # rounding of the derivative: relative to the phase slope and to the phase error
    dphi = np.abs(ref.d_phases_ff1d(loc, src.locations, src.units[0], wl).astype(float))
    p = np.abs(ref.pad3(loc).astype(float)).sum(axis=1)
    w = 2 * np.pi / float(wl)
    g = np.ones(src.size)
    if src.units[0] == 'sin' and ndim_eff > 1:
        s = np.abs(src.locations)
        g = 1 / np.sqrt((1 - s) * (1 + s)) ** 3
    elif src.units[0] == 'deg':
        g = np.full(src.size, np.pi / 180)
    dtol = tol * dphi.max(initial=0.0) * 2 + 256 * ref.EPS * w * p[:, None] * g[None, :]
    if any(n == 'mutual_coupling' for n, _, _ in sel):
        dtol = np.full_like(tol, dtol.max() * 10)
    c.close(r[1], D, 'derivative', atol=dtol, rtol=1e-10)
    # asking for derivatives does not change the steering matrix
    c.close(arr.steering_matrix(src, wl, perturbations=which), r[0], 'steering-same', atol=1e-12, rtol=1e-12)


@check.scenario(1500, big=True)
def finite_difference(c):
    """No model at all: the real steering matrix around the real derivative."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-2, 2))
    ndim = int(rng.integers(1, 4))
    perts = {}

    def kw(m):
        perts.update(gen.perturbation_dict(rng, m, wl, wild=True))
        return {'perturbations': perts}

    arr = gen.array(rng, wl, ndim, kw=kw, ambiguous=False)
    if arr.size and np.abs(arr.actual_element_locations).max(initial=0) > 50 * wl:
        c.skip('aperture')
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    k = gen.size(rng, 1, 6)
    x = gen.ff1d_locations(rng, k, unit, 0.85, False)
    which = gen.pick(rng, 'all', 'known', 'none')
    mk = lambda y: S.FarField1DSourcePlacement(y, unit)
    c.note(array=type(arr).__name__, loc=arr.element_locations, unit=unit, x=x, wl=wl, which=which,
           perts={n: [v, kk] for n, (v, kk) in perts.items()})
    A, D = arr.steering_matrix(mk(x), wl, True, which)
    f = lambda h: (arr.steering_matrix(mk(x + h), wl, perturbations=which) -
                   arr.steering_matrix(mk(x - h), wl, perturbations=which)) / (2 * h)
    h = 1e-4 * gen.LIMITS[unit] / np.pi
    est = (4 * f(h / 2) - f(h)) / 3
    size = max(1.0, 2 * np.pi * np.abs(arr.actual_element_locations).max(initial=0) / wl) / gen.LIMITS[unit] * 4
    c.close(D, est, 'finite-difference', atol=max(1e-7, 1e-10 * size ** 3) * size, rtol=1e-6)


@check.scenario(600, big=True)
def refused(c):
    rng = c.rng
    wl = gen.wavelength(rng, False)
    ndim = int(rng.integers(1, 4))
    case = gen.pick(rng, 'ff2d', 'nf2d', 'nonisotropic', 'vector')
    k = gen.size(rng, 1, 5)
    if case in ('ff2d', 'nf2d'):
        arr = gen.array(rng, wl, ndim)
        src = gen.sources(rng, k, wl, case)
        c.refused(lambda: src.phase_delay_matrix(arr.element_locations, wl, True), 'unsupported-derivative')
    else:
        L = 1 if case == 'nonisotropic' else gen.size(rng, 2, 5)
        f = (lambda r, az, el, p: np.cos(az)) if L == 1 else (lambda r, az, el, p: np.stack([np.cos(az)] * L))
        arr = gen.array(rng, wl, ndim, kw={'element': EL.CustomNonisotropicSensor(f, output_size=L)})
        src = gen.ff1d(rng, k)
    c.note(case=case, array=type(arr).__name__, loc=arr.element_locations, k=k, src=src.locations)
    which = gen.pick(rng, 'all', 'known', 'none')
    c.refused(lambda: arr.steering_matrix(src, wl, True, which), 'unsupported-derivative', msg=case)
    # without derivatives the same request is fine
    A = arr.steering_matrix(src, wl, False, which)
    c.eq(A.shape[-1], k, 'still-usable')


@check.scenario(1500, big=True)
def phase_derivative(c):
    """The derivative offered by the placement itself."""
    rng = c.rng
    wl = gen.wavelength(rng)
    ndim = int(rng.integers(1, 4))
    m = gen.heavy_int(rng, 1, 30)
    locs = rng.normal(size=(m, ndim)) * wl * 3
    src = make_sources(rng, gen.heavy_int(rng, 1, 20), ndim)
    c.note(loc=locs, src=src.locations, unit=src.units[0], wl=wl)
    r = src.phase_delay_matrix(locs, wl, True) if gen.coin(rng) else src.phase_delay_matrix(locs, wl, derivatives=True)
    c.ok(isinstance(r, tuple) and len(r) == 2, 'result-structure')
    tol = ref.phase_tol(locs, 'ff1d', src.locations, src.units[0], wl)
    c.close(r[0], ref.phases(locs, 'ff1d', src.locations, src.units[0], wl).astype(float), 'phase', atol=tol, rtol=1e-14)
    w = 2 * np.pi / float(wl)
    d = ref.d_phases_ff1d(locs, src.locations, src.units[0], wl).astype(float)
    g = np.ones(src.size)
    if src.units[0] == 'sin' and ndim > 1:
        s = np.abs(src.locations)
        g = 1 / np.sqrt((1 - s) * (1 + s)) ** 3
    c.close(r[1], d, 'phase-derivative', rtol=1e-12, atol=256 * ref.EPS * w * np.abs(locs).sum(1)[:, None] * g[None, :])


history.register(check, ('array',), ('array',))
