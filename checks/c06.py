import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.sources as S

check = Check('C06',
              'placements of all kinds and units with random, integer, empty, single and range-limit locations; random '
              'selection histories against plain numpy indexing; out-of-range values one ulp beyond the limits; '
              'non-trivial = at least one location was reported, converted, selected, transformed or refused',
              ['conversions are compared in extended precision with a few ulp amplified by the conditioning of arcsin'])

LIM1 = {'rad': np.pi / 2, 'deg': 90.0, 'sin': 1.0}
LIM2 = {'rad': (np.pi, np.pi / 2), 'deg': (180.0, 90.0)}


def conv_ld(x, a, b):
    """Extended-precision unit conversion."""
    x = np.asarray(x).astype(ref.LD)
    if a == b:
        return x
    if a == 'deg':
        x = x * ref.PI / 180
    elif a == 'sin':
        x = np.arcsin(x)
    if b == 'deg':
        return x * 180 / ref.PI
    if b == 'sin':
        return np.sin(x)
    return x


def conv_tol(x, a, b):
    x = np.abs(np.asarray(x, dtype=float))
    t = 8 * ref.EPS * np.maximum(np.abs(conv_ld(x, a, b).astype(float)), 1e-300)
    if a == 'sin' and b != 'sin':
        g = 1 / np.sqrt(np.maximum(1 - x * x, 1e-16))
        t = t + 8 * ref.EPS * x * g * (180 / np.pi if b == 'deg' else 1)
        t = np.where(x == 1, 1e-15 * 90, t)
    return t


def make(rng, kind, k):
    wl = 1.0
    return gen.sources(rng, k, wl, kind)


def rebuild(kind, x, unit):
    if kind == 'ff1d':
        return S.FarField1DSourcePlacement(x, unit)
    if kind == 'ff2d':
        return S.FarField2DSourcePlacement(x, unit)
    return S.NearField2DSourcePlacement(x)


def report(c, s, kind, x, unit):
    n = len(x)
    c.same(s.locations, x, 'locations')
    c.eq(s.locations.dtype.kind, 'f', 'float-storage')
    c.eq(tuple(s.units), {'ff1d': (unit,), 'ff2d': (unit, unit), 'nf2d': ('m', 'm')}[kind], 'units')
    c.eq((s.size, len(s)), (n, n), 'size')
    c.eq(s.is_far_field, kind != 'nf2d', 'far-field')
    if kind == 'ff1d':
        exp = ((-LIM1[unit], LIM1[unit]),)
    elif kind == 'ff2d':
        exp = tuple((-v, v) for v in LIM2[unit])
    else:
        exp = ((-np.inf, np.inf), (-np.inf, np.inf))
    c.eq(tuple(tuple(float(v) for v in r) for r in s.valid_ranges), exp, 'valid-ranges')


@check.scenario(3000, big=True)
def reports_and_converts(c):
    rng = c.rng
    kind = gen.pick(rng, 'ff1d', 'ff2d', 'nf2d')
    k = gen.heavy_int(rng, 1, 60)
    if kind == 'ff1d':
        unit = gen.pick(rng, 'rad', 'deg', 'sin')
        x = gen.ff1d_locations(rng, k, unit)
        if unit == 'deg' and gen.coin(rng, 0.2):
            x = np.round(x).astype(int)
        units = ['rad', 'deg', 'sin']
    elif kind == 'ff2d':
        unit = gen.pick(rng, 'rad', 'deg')
        x = gen.ff2d_locations(rng, k, unit)
        if unit == 'deg' and gen.coin(rng, 0.2):
            x = np.round(x).astype(int)
        units = ['rad', 'deg']
    else:
        unit = 'm'
        x = gen.nf2d_locations(rng, k, 1.0)
        if gen.coin(rng, 0.2):
            x = np.round(x).astype(int)
        units = ['m']
    given = x.tolist() if gen.coin(rng, 0.3) else x
    s = rebuild(kind, given, unit) if (unit != 'rad' or gen.coin(rng)) else (
        S.FarField1DSourcePlacement(given) if kind == 'ff1d' else S.FarField2DSourcePlacement(given))
    c.note(kind=kind, unit=unit, x=x)
    report(c, s, kind, x, unit)
    for u in units:
        t = s.as_unit(u)
        c.ok(type(t) is type(s) and t is not s, 'conversion-type')
        c.eq(set(t.units), {u}, 'conversion-unit')
        c.eq(t.size, s.size, 'conversion-size')
        if kind == 'nf2d':
            c.same(t.locations, x, 'conversion')
            b = t
        else:
            c.close(t.locations, conv_ld(x, unit, u).astype(float), 'conversion', atol=conv_tol(x, unit, u), rtol=0)
            b = t.as_unit(unit)
            lim = LIM1[unit] if kind == 'ff1d' else np.array(LIM2[unit])
            e = np.abs(np.asarray(x, dtype=float)) / lim
            # through the sine, directions close to end-fire lose precision
            cond = 1.0 / np.maximum(np.cos(e * np.pi / 2), 3e-8) if (u == 'sin' and unit != 'sin') else 1.0
            c.close(b.locations, np.asarray(x, dtype=float), 'round-trip', atol=64 * ref.EPS * lim * cond, rtol=0)
        # independence of the converted placement
        keep = s.locations.copy()
        if t.locations.flags.writeable:
            t.locations[...] = 0
        c.same(s.locations, keep, 'conversion-independent')
    for bad in ('xyz', '', 'DEG', 'degree') + (('m',) if kind != 'nf2d' else ('rad', 'deg')) + (('sin',) if kind == 'ff2d' else ()):
        c.refused(lambda: s.as_unit(bad), 'unknown-unit', msg=bad)


@check.scenario(1500, big=True)
def limits(c):
    """The valid range is accepted including its limits, and nothing beyond."""
    rng = c.rng
    k = gen.size(rng, 1, 8)
    i = int(rng.integers(k))
    sign = gen.pick(rng, -1, 1)
    if gen.coin(rng):
        unit = gen.pick(rng, 'rad', 'deg', 'sin')
        lim = LIM1[unit]
        x = gen.ff1d_locations(rng, k, unit)
        x[i] = sign * lim
        mk = lambda v: S.FarField1DSourcePlacement(v, unit)
        put = lambda v, val: v.__setitem__(i, val)
    else:
        unit = gen.pick(rng, 'rad', 'deg')
        col = int(rng.integers(2))
        lim = LIM2[unit][col]
        x = gen.ff2d_locations(rng, k, unit)
        x[i, col] = sign * lim
        mk = lambda v: S.FarField2DSourcePlacement(v, unit)
        put = lambda v, val: v.__setitem__((i, col), val)
    c.note(unit=unit, x=x, i=i)
    s = mk(x.tolist() if gen.coin(rng) else x.copy())
    c.same(s.locations, x, 'limit-accepted')
    for u in ('rad', 'deg') + (('sin',) if x.ndim == 1 else ()):
        # converting the full range stays within the range
        t = s.as_unit(u)
        c.ok(bool(np.all(np.isfinite(t.locations))), 'limit-converted')
    for val in (sign * np.nextafter(lim, np.inf), sign * lim * float(rng.uniform(1.0001, 3)), sign * np.inf):
        y = x.copy()
        put(y, val)
        c.refused(lambda: mk(y), 'out-of-range', (ValueError,))
        c.refused(lambda: mk(y.tolist()), 'out-of-range', (ValueError,))


@check.scenario(900, big=True)
def malformed(c):
    rng = c.rng
    k = gen.size(rng, 1, 5)
    c.note(k=k, r=float(rng.random()))
    V = (ValueError,)
    u = gen.pick(rng, 'rad', 'deg', 'sin')
    c.refused(lambda: S.FarField1DSourcePlacement(np.zeros((k, 1)), u), 'malformed', V)
    c.refused(lambda: S.FarField1DSourcePlacement(np.zeros((k, 2)).tolist(), u), 'malformed', V)
    u2 = gen.pick(rng, 'rad', 'deg')
    w = gen.pick(rng, 1, 3, 4)
    for mk in (lambda x: S.FarField2DSourcePlacement(x, u2), lambda x: S.NearField2DSourcePlacement(x)):
        c.refused(lambda: mk(np.zeros((k, w))), 'malformed', V)
        c.refused(lambda: mk(np.zeros((k, w)).tolist()), 'malformed', V)
        c.refused(lambda: mk(np.zeros(2)), 'malformed', V)
        c.refused(lambda: mk([0.1, 0.2]), 'malformed', V)
        c.refused(lambda: mk(np.zeros((k, 2, 2))), 'malformed', V)
    for bad in ('', 'm', 'Rad', 'degrees', 'cos'):
        c.refused(lambda: S.FarField1DSourcePlacement(np.zeros(k), bad), 'unknown-unit', V)
        c.refused(lambda: S.FarField2DSourcePlacement(np.zeros((k, 2)), bad), 'unknown-unit', V)
    c.refused(lambda: S.FarField2DSourcePlacement(np.zeros((k, 2)), 'sin'), 'unknown-unit', V)
    s = make(rng, 'ff1d', k)
    for loc in (np.zeros((3, 4)), np.zeros((3, 0))):
        for q in (s, make(rng, 'ff2d', k), make(rng, 'nf2d', k)):
            c.refused(lambda: q.phase_delay_matrix(loc, 1.0), 'sensor-dimension', V)


def random_key(rng, n):
    form = gen.pick(rng, 'slice', 'slice', 'list', 'ndarray', 'mask', 'boollist', 'negative', 'repeat', 'intscalar', 'npscalar', 'empty')
    if form == 'slice':
        f = lambda: gen.pick(rng, None, int(rng.integers(-n - 1, n + 2)))
        return slice(f(), f(), gen.pick(rng, None, None, 1, 2, -1, -2)), False
    if form == 'list':
        return [int(v) for v in rng.permutation(n)[:int(rng.integers(1, n + 1))]], False
    if form == 'ndarray':
        return rng.permutation(n)[:int(rng.integers(1, n + 1))], False
    if form == 'mask':
        return rng.random(n) < 0.5, False
    if form == 'boollist':
        return [bool(v) for v in rng.random(n) < 0.5], False
    if form == 'negative':
        return -1 - rng.permutation(n)[:int(rng.integers(1, n + 1))], False
    if form == 'repeat':
        r = rng.integers(-n if gen.coin(rng, 0.3) else 0, n, int(rng.integers(1, 2 * n + 1)))
        return r.tolist() if gen.coin(rng) else r, False
    if form == 'empty':
        return [], False
    i = int(rng.integers(-n, n))
    return (i if form == 'intscalar' else np.int64(i)), True


@check.scenario(3000, big=True)
def selection(c):
    """Histories of selections against numpy indexing of a shadow array; every
    placement of the history is checked (and damaged) at the end."""
    rng = c.rng
    kind = gen.pick(rng, 'ff1d', 'ff2d', 'nf2d')
    s = make(rng, kind, gen.size(rng, 1, 12))
    if gen.coin(rng):
        s = rebuild(kind, gen.relayout(rng, s.locations), s.units[0])
    unit = s.units[0]
    pool = [(s, s.locations.copy())]
    keys = []
    for _ in range(int(rng.integers(2, 8))):
        a, x = pool[int(rng.integers(len(pool)))]
        if len(x) == 0:
            continue
        key, scalar = random_key(rng, len(x))
        keys.append(str(key))
        r = a[key]
        exp = x[key] if not isinstance(key, list) else x[np.array(key, dtype=bool if key and isinstance(key[0], bool) else int)]
        if scalar:
            c.same(r, exp, 'scalar-index')
        else:
            c.ok(type(r) is type(a) and r is not a, 'selection-kind')
            c.eq(tuple(r.units), tuple(a.units), 'selection-unit')
            c.same(r.locations, exp, 'selection', str(key))
            c.eq(r.size, len(exp), 'selection-size')
            pool.append((r, np.array(exp)))
    c.note(kind=kind, unit=unit, x=pool[0][1], keys=keys)
    for i, (a, x) in enumerate(pool):
        c.same(a.locations, x, 'history-keeps-locations')
    # writing into one of them does not affect any other
    j = int(rng.integers(len(pool)))
    if pool[j][0].locations.flags.writeable and pool[j][0].size:
        pool[j][0].locations[...] = 0.123
        for i, (a, x) in enumerate(pool):
            if i != j:
                c.same(a.locations, x, 'selection-independent')
    full = s[:]
    c.ok(full is not s, 'full-copy')
    c.same(full.locations, s.locations, 'full-copy')
    for bad in ((0,), 'a', None, 1.5) if kind == 'ff1d' else ((0,), 'a', None):
        c.refused(lambda: s[bad], 'unsupported-index', (KeyError, ValueError, IndexError, TypeError))
    c.refused(lambda: s[np.zeros((2, 2), dtype=int)], 'unsupported-index', (KeyError, ValueError, IndexError))
    c.refused(lambda: s[s.size], 'index-out-of-range', (IndexError,))
    c.refused(lambda: s[[0, s.size]], 'index-out-of-range', (IndexError,))


@check.scenario(2500)
def spherical(c):
    rng = c.rng
    kind = gen.pick(rng, 'ff1d', 'ff2d', 'nf2d', 'nf2d')
    s = make(rng, kind, gen.heavy_int(rng, 1, 20))
    d = int(rng.integers(1, 4))
    m = gen.heavy_int(rng, 1, 15)
    if gen.coin(rng, 0.05):
        m = int(rng.integers(20, 250))
    refs = rng.normal(size=(m, d)) * float(10 ** (rng.uniform(-2, 2) if gen.coin(rng, 0.8) else rng.uniform(-6, 6))) * (0 if gen.coin(rng, 0.02) else 1)
    if gen.coin(rng, 0.2):
        refs = rng.integers(-9, 10, (m, d))
    elif gen.coin(rng, 0.1):
        refs = refs.astype(np.float32)
    if gen.coin(rng):
        refs = gen.relayout(rng, refs)
    c.note(kind=kind, unit=s.units[0], refs=refs, x=s.locations)
    r, az, el = s.calc_spherical_coords(refs)
    k = s.size
    for v in (r, az, el):
        c.eq(np.shape(v), (m, k), 'shape')
    if kind != 'nf2d':
        u = ref.directions(kind, s.locations, s.units[0]).astype(float)
        c.ok(bool(np.all(np.isposinf(r))), 'far-range')
        v = np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)], 2)
        tol = 64 * ref.EPS
        if kind == 'ff1d' and s.units[0] == 'sin':
            tol = tol / np.sqrt(np.maximum(1 - s.locations ** 2, 1e-16))[None, :, None] + 64 * ref.EPS
        c.close(v, np.broadcast_to(u, (m, k, 3)), 'directions', atol=tol, rtol=0)
        if kind == 'ff1d':
            c.close(el, np.zeros((m, k)), 'elevation', atol=0, rtol=0)
    else:
        diff = (ref.pad3(s.locations)[None] - ref.pad3(refs)[:, None]).astype(float)
        dist = np.sqrt((diff ** 2).sum(-1))
        scale = np.abs(refs).max(initial=0) + np.abs(s.locations).max()
        c.close(r, dist, 'range', rtol=1e-13, atol=1e-14 * scale)
        v = r[..., None] * np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)], 2)
        c.close(v, diff, 'directions', atol=1e-13 * (scale + dist.max()), rtol=0)
    c.ok(bool(np.all(np.abs(el) <= np.pi / 2 + 1e-12)), 'elevation-range')
    c.ok(bool(np.all(np.abs(az) <= np.pi + 1e-12)), 'azimuth-range')


@check.scenario(2000)
def roots(c):
    rng = c.rng
    wl = gen.wavelength(rng)
    unit = gen.pick(rng, 'rad', 'deg', 'sin', None)
    d0 = wl * float(rng.uniform(0.02, 0.5)) if gen.coin(rng, 0.7) else wl * gen.pick(rng, 0.5, 0.25, 1.0, 2.5)
    if gen.coin(rng, 0.1):
        d0 = int(rng.integers(1, 5))
        wl = d0 * gen.pick(rng, 2, 4, 3, 1.5)
    k = gen.heavy_int(rng, 1, 20) if gen.coin(rng, 0.95) else int(rng.integers(20, 250))
    lim = min(1.0, wl / (2 * d0))
    sines = rng.uniform(-lim, lim, k) * 0.999
    if gen.coin(rng, 0.1):
        sines[0] = 0.0
    z = np.exp(2j * np.pi * d0 / wl * sines) * (rng.uniform(0.3, 1.6, k) if gen.coin(rng, 0.9) else 10 ** rng.uniform(-12, 12, k))
    if gen.coin(rng, 0.1):
        z = z.astype(np.complex64)
        sines = np.angle(z.astype(complex)) / (2 * np.pi * d0 / wl)
    elif gen.coin(rng, 0.03):
        z = np.abs(z)                   # a broadside source
        sines = np.zeros(k)
    if gen.coin(rng, 0.3):
        z = gen.relayout(rng, z)
    keep = z.copy()
    z.setflags(write=False)
    c.note(wl=wl, unit=unit, d0=d0, sines=sines)
    s = S.FarField1DSourcePlacement.from_z(z, wl, d0) if unit is None else S.FarField1DSourcePlacement.from_z(z, wl, d0, unit)
    unit = unit or 'rad'
    c.same(z, keep, 'roots-untouched')
    c.ok(type(s) is S.FarField1DSourcePlacement, 'type')
    c.eq(tuple(s.units), (unit,), 'unit')
    x = s.locations
    c.eq(x.shape, (k,), 'count')
    c.ok(bool(np.all(np.diff(x) >= 0)), 'sorted')
    got = conv_ld(x, unit, 'sin').astype(float)
    tol = 1e-12 if z.dtype.itemsize > 8 or z.dtype.kind == 'f' else 3e-6
    c.close(got, np.sort(sines), 'phase-progression', atol=tol * max(1, wl / d0), rtol=tol)


history.register(check, ('sources', 'grid'), ('placement', 'grid'))
