import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.sources as S
import doatools.estimation.grid as G

check = Check('C10',
              'search grids of all three kinds built from defaults, scalars, segments, array-likes and explicit (uniform, '
              'non-uniform, integer, single-point) axes in all units; refinements at random, border and corner coordinates '
              'with random density/span, repeated on their own results; non-trivial = the axes and the source placement of a '
              'grid were compared with the enumeration of the definition',
              ['refined points are compared up to 1e-12 of the axis range (4e-8 for axes that are uniform up to rounding)'])

RANGE1 = {'rad': (-np.pi / 2, np.pi / 2), 'deg': (-90.0, 90.0), 'sin': (-1.0, 1.0)}
RANGE2 = {'rad': ((-np.pi, 0.0), (np.pi, np.pi / 2)), 'deg': ((-180.0, 0.0), (180.0, 90.0))}
NAMES = {'ff1d': ('DOA',), 'ff2d': ('Azimuth', 'Elevation'), 'nf2d': ('x', 'y')}
CLS = {'ff1d': (G.FarField1DSearchGrid, S.FarField1DSourcePlacement), 'ff2d': (G.FarField2DSearchGrid, S.FarField2DSourcePlacement),
       'nf2d': (G.NearField2DSearchGrid, S.NearField2DSourcePlacement)}


def uniform(a, b, n):
    a, b = ref.LD(a), ref.LD(b)
    return np.array([float(a + (b - a) * i / n) for i in range(n)])


def inspect(c, g, kind, unit, axes, rtol=1e-13, tag=''):
    shape = tuple(len(a) for a in axes)
    units = (unit,) * len(axes)
    c.ok(type(g) is CLS[kind][0], 'grid-type', tag)
    c.eq(g.ndim, len(axes), 'ndim', tag)
    c.eq(tuple(g.shape), shape, 'shape', tag)
    c.eq(int(g.size), int(np.prod(shape)), 'size', tag)
    c.eq(tuple(g.units), units, 'units', tag)
    c.eq(tuple(g.axis_names), NAMES[kind], 'axis-names', tag)
    c.eq(len(g.axes), len(axes), 'axes', tag)
    for a, e in zip(g.axes, axes):
        top = np.abs(np.asarray(e, dtype=float)).max(initial=0)
        c.close(a, e, 'axis', atol=rtol * top, rtol=0, msg=tag)
    p = g.source_placement
    c.ok(type(p) is CLS[kind][1], 'placement-type', tag)
    c.eq(tuple(p.units), units, 'placement-units', tag)
    c.eq(p.size, int(np.prod(shape)), 'placement-size', tag)
    ax = [np.asarray(a) for a in g.axes]
    if len(ax) == 1:
        exp = ax[0]
    else:
        exp = np.array([[u, v] for u in ax[0] for v in ax[1]], dtype=float).reshape((-1, 2))
    c.same(p.locations, exp, 'placement-order', tag)


def make_1d(rng):
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    lo, hi = RANGE1[unit]
    form = gen.pick(rng, 'default', 'size', 'scalar', 'startonly', 'segments', 'axes', 'axesint')
    kw = {} if unit == 'rad' and gen.coin(rng) else {'unit': unit}
    n = gen.int_kind(rng, gen.heavy_int(rng, 1, 400))
    a, b = np.sort(rng.uniform(lo, hi, 2))
    if form == 'default':
        return form, unit, lambda: G.FarField1DSearchGrid(**kw), (uniform(lo, hi, 180),)
    if form == 'size':
        return form, unit, lambda: G.FarField1DSearchGrid(size=n, **kw), (uniform(lo, hi, n),)
    if form == 'scalar':
        if gen.coin(rng, 0.2) and unit == 'deg':
            a, b = int(a), int(b) + 1
            b = min(b, 90)
        return form, unit, lambda: G.FarField1DSearchGrid(a, b, n, **kw), (uniform(a, b, n),)
    if form == 'startonly':
        if gen.coin(rng):
            return form, unit, lambda: G.FarField1DSearchGrid(start=a, size=n, **kw), (uniform(a, hi, n),)
        return form, unit, lambda: G.FarField1DSearchGrid(stop=b, size=n, **kw), (uniform(lo, b, n),)
    if form == 'segments':
        s = int(rng.integers(1, 5))
        cut = np.sort(rng.uniform(lo, hi, 2 * s))
        st, en = cut[::2], cut[1::2]
        sz = [gen.int_kind(rng, int(v)) for v in rng.integers(1, 40, s)]
        ax = np.concatenate([uniform(x, y, z) for x, y, z in zip(st, en, sz)])
        conv = gen.pick(rng, list, tuple, np.array)
        return form, unit, lambda: G.FarField1DSearchGrid(conv(st.tolist()), conv(en.tolist()), conv(sz), **kw), (ax,)
    ax = np.sort(rng.uniform(lo, hi, n))
    if form == 'axesint':
        lim = {'rad': 1, 'deg': 90, 'sin': 1}[unit]
        ax = np.arange(-lim, lim + 1, int(rng.integers(1, 10)))
    return form, unit, lambda: G.FarField1DSearchGrid(axes=(ax,), **kw), (ax,)


def make_2d(rng, kind):
    if kind == 'ff2d':
        unit = gen.pick(rng, 'rad', 'deg')
        (l0, l1), (h0, h1) = RANGE2[unit]
        l1 = -h1
    else:
        unit = 'm'
        (l0, l1), (h0, h1) = (-30.0, -20.0), (30.0, 50.0)
    form = gen.pick(rng, 'box', 'box', 'axes', 'axesint') if kind == 'nf2d' else gen.pick(rng, 'default', 'size', 'box', 'startonly', 'axes', 'axesint')
    kw = {} if kind == 'nf2d' or (unit == 'rad' and gen.coin(rng)) else {'unit': unit}
    cls = CLS[kind][0]
    n = (gen.size(rng, 1, 25), gen.size(rng, 1, 25))
    size = n
    if gen.coin(rng, 0.3):
        n = (n[0], n[0])
        size = gen.int_kind(rng, n[0])
    elif gen.coin(rng):
        size = gen.pick(rng, list, np.array)(n)
    a = np.sort(rng.uniform(l0, h0, 2))
    b = np.sort(rng.uniform(l1, h1, 2))
    conv = gen.pick(rng, list, tuple, np.array)
    st, en = conv([a[0], b[0]]), conv([a[1], b[1]])
    d = RANGE2.get(unit)
    if form == 'default':
        m = (6, 4)
        if gen.coin(rng, 0.1):
            return form, unit, lambda: cls(**kw), (uniform(d[0][0], d[1][0], 360), uniform(d[0][1], d[1][1], 90))
        return form, unit, lambda: cls(size=m, **kw), (uniform(d[0][0], d[1][0], 6), uniform(d[0][1], d[1][1], 4))
    if form == 'size':
        return form, unit, lambda: cls(size=size, **kw), (uniform(d[0][0], d[1][0], n[0]), uniform(d[0][1], d[1][1], n[1]))
    if form == 'startonly':
        b = np.sort(rng.uniform(0, h1, 2))
        if gen.coin(rng):
            return form, unit, lambda: cls(start=conv([a[0], b[0]]), size=size, **kw), (uniform(a[0], d[1][0], n[0]), uniform(b[0], d[1][1], n[1]))
        return form, unit, lambda: cls(stop=conv([a[0], b[0]]), size=size, **kw), (uniform(d[0][0], a[0], n[0]), uniform(d[0][1], b[0], n[1]))
    if form == 'box':
        return form, unit, lambda: cls(st, en, size, **kw), (uniform(a[0], a[1], n[0]), uniform(b[0], b[1], n[1]))
    x, y = np.sort(rng.uniform(l0, h0, n[0])), np.sort(rng.uniform(l1, h1, n[1]))
    if form == 'axesint':
        x, y = np.arange(-3, 4), np.arange(-1, 2)
        if unit != 'rad':
            x, y = x * 10, y * 10
    return form, unit, lambda: cls(axes=(x, y), **kw), (x, y)


def make(rng, kind):
    return make_1d(rng) if kind == 'ff1d' else make_2d(rng, kind)


def one(c, kind, axes_only=False):
    rng = c.rng
    form, unit, mk, axes = make(rng, kind)
    c.note(kind=kind, form=form, unit=unit, axes=[np.asarray(a) for a in axes])
    g = mk()
    inspect(c, g, kind, unit, axes)
    return g, unit, axes


@check.scenario(2000, big=True)
def grids_1d(c):
    one(c, 'ff1d')


@check.scenario(1200, big=True)
def grids_2d_far(c):
    one(c, 'ff2d')


@check.scenario(1200, big=True)
def grids_2d_near(c):
    one(c, 'nf2d')


def refined_axis(ax, i, density, span):
    ax = np.asarray(ax, dtype=float)
    lo, hi = max(0, i - span), min(len(ax) - 1, i + span)
    out = [ax[lo]]
    for q in range(lo, hi):
        for t in range(1, density + 1):
            out.append(ax[q] + (ax[q + 1] - ax[q]) * (t / density))
    return np.array(out)


@check.scenario(3000, big=True)
def refinement(c):
    rng = c.rng
    kind = gen.pick(rng, 'ff1d', 'ff2d', 'nf2d')
    g, unit, axes = one(c, kind)
    keep = [np.array(a) for a in g.axes]
    loc = g.source_placement.locations.copy()
    depth = int(rng.integers(1, 4))
    cur = g
    trace = []
    for level in range(depth):
        shape = cur.shape
        coord = tuple(int(gen.pick(rng, 0, n - 1, rng.integers(n), rng.integers(n))) for n in shape)
        density = gen.pick(rng, None, 1, 2, 3, 10, int(rng.integers(1, 30)))
        span = gen.pick(rng, None, 1, 1, 2, 5, gen.size(rng, 1, 50))
        if kind != 'ff1d':
            density = min(density, 6) if density else density
            span = min(span, 3) if span else span
        kw = {}
        if density is not None:
            kw['density'] = gen.int_kind(rng, density)
        if span is not None:
            kw['span'] = gen.int_kind(rng, span)
        dn, sp = density or 10, span or 1
        trace.append([list(coord), density, span])
        exp = tuple(refined_axis(a, i, dn, sp) for a, i in zip(cur.axes, coord))
        arg = gen.pick(rng, coord, list(coord), np.array(coord))
        r = cur.create_refined_grid_at(arg, **kw)
        inspect(c, r, kind, unit, exp, rtol=1e-12, tag='level {0}'.format(level))
        got = cur.create_refined_axes_at(coord, dn, sp)
        c.ok(isinstance(got, tuple) and len(got) == len(exp), 'refined-axes-structure')
        for a, e in zip(got, exp):
            c.close(a, e, 'refined-axes', atol=1e-12 * np.abs(e).max(initial=0), rtol=0)
        if kind == 'ff1d' and r.size > 300:
            break
        if r.size > 3000:
            break
        cur = r
    c.note(trace=trace)
    # several coordinates at once: one grid per coordinate, in order
    q = int(rng.integers(1, 5))
    coords = [rng.integers(0, n, q) for n in g.shape]
    if gen.coin(rng):
        coords = [x.tolist() for x in coords]
    dn = int(rng.integers(1, 5))
    sp = int(rng.integers(1, 3))
    kw = gen.pick(rng, {}, {'density': dn}, {'span': sp}, {'density': dn, 'span': sp})
    many = g.create_refined_grids_at(*coords, **kw)
    if not isinstance(many, list) or len(many) != q:
        c.ok(False, 'one-grid-per-coordinate', 'got {0!r}'.format(many))
    for j, r in enumerate(many):
        exp = tuple(refined_axis(a, int(x[j]), kw.get('density', 10), kw.get('span', 1)) for a, x in zip(g.axes, coords))
        inspect(c, r, kind, unit, exp, rtol=1e-12, tag='grids-at')
    # the original is as it was
    for a, b in zip(g.axes, keep):
        c.same(a, b, 'original-untouched')
    c.same(g.source_placement.locations, loc, 'original-untouched')


@check.scenario(800, big=True)
def explicit_non_uniform(c):
    """Segmented, logarithmic, descending and nearly uniform axes."""
    rng = c.rng
    n = gen.size(rng, 2, 30)
    form = gen.pick(rng, 'gap', 'log', 'descending', 'nearly', 'random')
    if form == 'gap':
        ax = np.concatenate([np.linspace(-0.9, -0.4, n), np.linspace(0.2, 0.8, n)])
    elif form == 'log':
        ax = np.geomspace(1e-3, 0.9, n)
    elif form == 'descending':
        ax = np.linspace(0.9, -0.7, n)
    elif form == 'nearly':
        ax = np.linspace(-0.5, 0.7, n) * (1 + 1e-15 * rng.integers(-3, 4, n))
    else:
        ax = np.sort(rng.uniform(-1, 1, n))
    unit = gen.pick(rng, 'rad', 'sin', 'deg')
    g = G.FarField1DSearchGrid(unit=unit, axes=(ax,))
    i = int(rng.integers(len(ax)))
    dn, sp = int(rng.integers(1, 12)), int(rng.integers(1, 2 * n))
    c.note(form=form, ax=ax, i=i, dn=dn, sp=sp)
    r = g.create_refined_grid_at((i,), dn, sp)
    exp = refined_axis(ax, i, dn, sp)
    c.close(r.axes[0], exp, 'refined-axis', atol=4e-8 * abs(exp[-1] - exp[0]) if form == 'nearly' else 1e-13)
    c.close(r.axes[0][::dn], ax[max(0, i - sp):i + sp + 1], 'original-points', atol=4e-8 * abs(exp[-1] - exp[0]) if form == 'nearly' else 1e-13)


@check.scenario(800)
def refused(c):
    rng = c.rng
    kind = gen.pick(rng, 'ff1d', 'ff2d', 'nf2d')
    g, unit, axes = one(c, kind)
    ok = tuple(int(rng.integers(n)) for n in g.shape)
    V = (ValueError,)
    for f in (lambda **k: g.create_refined_grid_at(ok, **k), lambda **k: g.create_refined_axes_at(ok, k.get('density', 3), k.get('span', 1)),
              lambda **k: g.create_refined_grids_at(*[[v] for v in ok], **k)):
        for bad in (0, -1, -5):
            c.refused(lambda: f(density=bad), 'density', V)
            c.refused(lambda: f(span=bad), 'span', V)
    for bad in (ok + (0,), ok[:-1], ok + ok):
        c.refused(lambda: g.create_refined_grid_at(bad), 'coordinate-length', V)
        c.refused(lambda: g.create_refined_axes_at(bad, 2, 1), 'coordinate-length', V)
    for j in range(len(ok)):
        for v in (-1, g.shape[j], g.shape[j] + 1, g.shape[j] + 20):
            w = list(ok)
            w[j] = v
            c.refused(lambda: g.create_refined_grid_at(tuple(w)), 'coordinate-range', (ValueError, IndexError))
    cls = CLS[kind][0]
    for bad in ([np.array(a) for a in g.axes], np.array(g.axes[0])):
        c.refused(lambda: cls(axes=bad), 'axes-type', V)
    if kind != 'nf2d':
        c.refused(lambda: cls(unit='xyz'), 'unknown-unit')
        c.refused(lambda: cls(unit='m'), 'unknown-unit')
        c.refused(lambda: cls(axes=tuple(np.zeros(3) for _ in g.axes), unit='xyz').source_placement, 'unknown-unit')
    if kind == 'ff2d':
        c.refused(lambda: cls(unit='sin'), 'unknown-unit')
    inspect(c, g, kind, unit, axes)


history.register(check, ('grid', 'sources'), ('grid', 'placement'))
