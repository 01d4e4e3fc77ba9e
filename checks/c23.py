import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from matplotlib.colors import LogNorm, to_rgba
from vlib import gen, ref
from vlib.core import Check
import doatools.model.arrays as AR
import doatools.model.sources as S
import doatools.estimation.grid as G
from doatools.plotting import plot_array, plot_coarray, plot_spectrum
from doatools.plotting.plot_spectrum import plot_spectrum_1d, plot_spectrum_2d

check = Check('C23',
              'spectra of every supported container form on 1D and 2D grids (uniform, non-uniform, multi-segment, every unit), linear and '
              'log scale, lines and stems, swapped axes, estimates and truth; arrays and coarrays in 1D to 3D with and without location '
              'errors; on given axes while another axes is current and on new figures; non-trivial = the coordinates read back from the '
              'drawn artists were compared with the data',
              ['matplotlib Agg backend; pixels are not rendered, artists are inspected',
               'one cell of a uniformly spaced image is tolerated for the position of a value'])


def artists(ax):
    return len(ax.lines) + len(ax.collections) + len(ax.images) + len(ax.patches) + len(ax.containers) + len(ax.texts)


class Stage:
    """The target axes, a decoy that is current, and what existed before."""

    def __init__(self, c, dim3=False, new=False):
        rng = c.rng
        plt.close('all')
        self.c = c
        self.decoys = []
        self.ax = None
        if not new:
            f = plt.figure()
            self.ax = f.add_subplot(1, 2, 1, projection='3d') if dim3 else f.add_subplot(1, 2, 1)
            self.decoys.append(f.add_subplot(1, 2, 2))
        if new or gen.coin(rng):
            self.decoys.append(plt.figure().add_subplot(1, 1, 1))
        plt.sca(self.decoys[-1])
        self.before = [(artists(d), d.get_xlabel(), d.get_xlim(), d.get_yscale()) for d in self.decoys]
        self.figs = plt.get_fignums()
        self.naxes = {n: len(plt.figure(n).axes) for n in self.figs}
        plt.sca(self.decoys[-1])

    def verify(self, ax, extra_axes=0, figsize=None):
        c = self.c
        for d, b in zip(self.decoys, self.before):
            c.eq((artists(d), d.get_xlabel(), d.get_xlim(), d.get_yscale()), b, 'elsewhere', 'another axes')
        now = plt.get_fignums()
        if self.ax is not None:
            c.ok(ax is self.ax, 'given-axes', 'the returned axes is not the given one')
            c.eq(now, self.figs, 'figures')
            for n in now:
                want = self.naxes[n] + (extra_axes if plt.figure(n) is self.ax.figure else 0)
                c.eq(len(plt.figure(n).axes), want, 'axes-count')
        else:
            c.eq(len(now), len(self.figs) + 1, 'figures')
            f = plt.figure([n for n in now if n not in self.figs][0])
            c.ok(ax.figure is f, 'new-figure')
            if figsize is not None:
                c.eq(tuple(f.get_size_inches()), tuple(figsize), 'figsize')


def legend_texts(ax):
    lg = ax.get_legend()
    return [] if lg is None else [t.get_text() for t in lg.get_texts()]


def line_data(c, cont, what):
    """(x, y) of a line or stem container."""
    if hasattr(cont, 'markerline'):
        x, y = cont.markerline.get_data()
        segs = np.array([np.asarray(s) for s in cont.stemlines.get_segments()]).reshape((-1, 2, 2))
        x, y = np.ravel(x).astype(float), np.ravel(y).astype(float)
        c.close(segs[:, 1, 0], x, what + '-stems')
        c.close(segs[:, 1, 1], y, what + '-stems')
        return x, y, 'stem', cont.markerline.get_color()
    c.eq(len(cont), 1, what + '-container')
    x, y = cont[0].get_data()
    return np.asarray(x, float), np.asarray(y, float), 'line', cont[0].get_color()


def locations_1d(rng, g, unit):
    k = int(rng.integers(1, 5))
    f = gen.LIMITS[unit]
    return S.FarField1DSourcePlacement(rng.uniform(-f, f, k), unit)


@check.scenario(480, big=True)
def spectrum_1d(c):
    rng = c.rng
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    g = gen.grid(rng, 'ff1d', 1.0, unit=unit)
    n = g.size
    ns = int(rng.integers(1, 4)) if gen.coin(rng, 0.9) else int(rng.integers(8, 12))
    spectra = [np.abs(rng.normal(size=n)) * 10 ** rng.uniform(-6, 6) + 1e-9 for _ in range(ns)]
    if gen.coin(rng, 0.1):
        spectra[0] = np.zeros(n)
    if gen.coin(rng, 0.1):
        spectra[-1] = rng.integers(1, 100, n)
    form = gen.pick(rng, 'array', 'list', 'tuple', 'dict')
    labels = ['']
    if form == 'array':
        spectra = spectra[:1]
        sp = spectra[0]
    elif form == 'list':
        sp, labels = list(spectra), [''] * ns
    elif form == 'tuple':
        sp, labels = tuple(spectra), [''] * ns
    else:
        labels = ['spectrum {0}'.format(i) for i in rng.permutation(ns)]
        if gen.coin(rng, 0.35):
            labels[0 if gen.coin(rng) else int(rng.integers(ns))] = ''       # one of the spectra is not labelled
        sp = dict(zip(labels, spectra))
    keep = [s.copy() for s in spectra]
    log, discrete = gen.coin(rng), gen.coin(rng)
    kw = {}
    est = tru = None
    if gen.coin(rng):
        est = kw['estimates'] = locations_1d(rng, g, unit)
    if gen.coin(rng):
        tru = kw['ground_truth'] = locations_1d(rng, g, unit)
    if log or gen.coin(rng):
        kw['use_log_scale'] = log
    if discrete or gen.coin(rng):
        kw['discrete'] = discrete
    how = gen.pick(rng, 'front', 'front', 'direct', 'new')
    figsize = None
    c.note(unit=unit, n=n, ns=len(spectra), form=form, log=log, discrete=discrete, est=est is not None, tru=tru is not None, how=how,
           sp=spectra[0])
    st = Stage(c, new=how == 'new')
    if how == 'direct':
        cs = plot_spectrum_1d(sp, g, st.ax, **kw)
        ax = st.ax
    elif how == 'front':
        ax, cs = plot_spectrum(sp, g, st.ax, **kw) if gen.coin(rng) else plot_spectrum(sp, g, ax=st.ax, **kw)
    else:
        if gen.coin(rng):
            figsize = kw['figsize'] = (4.0, 3.0)
        ax, cs = plot_spectrum(sp, g, **kw)
    st.verify(ax, 0, figsize)
    c.eq(len(cs), len(spectra) + (est is not None) + (tru is not None), 'containers')
    axis = np.asarray(g.axes[0], float)
    for s, cont in zip(keep, cs):
        x, y, kind, _ = line_data(c, cont, 'spectrum')
        c.eq(kind, 'stem' if discrete else 'line', 'spectrum-kind')
        c.close(x, axis, 'spectrum-x', rtol=1e-12)
        c.close(y, s / s.max() if s.max() > 0 else s, 'spectrum-y', rtol=1e-12)
    colors = [to_rgba(line_data(c, cont, 'x')[3]) for cont in cs]
    pos = len(spectra)
    for what, src in (('estimates', est), ('truth', tru)):
        if src is None:
            continue
        x, y, kind, _ = line_data(c, cs[pos], what)
        c.eq(kind, 'stem', what + '-kind')
        c.close(x, np.ravel(src.locations).astype(float), what + '-x', rtol=1e-12)
        c.ok(np.all(y > 0), what + '-y')
        c.ok(colors[pos] not in colors[:pos], what + '-color', 'not distinguishable')
        pos += 1
    c.eq(ax.get_yscale(), 'log' if log else 'linear', 'scale')
    c.ok(unit in ax.get_xlabel(), 'label', ax.get_xlabel())
    lt = legend_texts(ax)
    for lb in labels:
        if lb:
            c.ok(lb in lt, 'legend', lambda: '{0} not in {1}'.format(lb, lt))
    c.eq(('Estimates' in lt, 'Ground truth' in lt), (est is not None, tru is not None), 'legend')
    lim = sorted(ax.get_xlim())
    c.ok(lim[0] <= axis.min() and lim[1] >= axis.max(), 'visible')
    for src in (est, tru):
        if src is not None:
            v = np.asarray(src.locations, float)
            c.ok(lim[0] <= v.min() and v.max() <= lim[1], 'visible', lambda: 'sources {0} shown {1}'.format(v.ravel(), lim))
    c.ok(sorted(ax.get_ylim())[1] >= 1 or max(s.max() for s in keep) <= 0, 'visible')
    for a, b in zip(spectra, keep):
        c.same(a, b, 'input-modified')
    c.same(g.axes[0], axis, 'input-modified')
    plt.close('all')


def node_values(c, im, x, y):
    """The value shown at every grid node (len(y), len(x))."""
    data = np.ma.getdata(im.get_array())
    if hasattr(im, 'get_extent'):
        x0, x1, y0, y1 = im.get_extent()
        ny, nx = data.shape
        if im.origin != 'lower':
            data = data[::-1]
        col = np.clip(np.floor((x - x0) / (x1 - x0) * nx), 0, nx - 1).astype(int) if x1 != x0 else np.zeros(len(x), int)
        row = np.clip(np.floor((y - y0) / (y1 - y0) * ny), 0, ny - 1).astype(int) if y1 != y0 else np.zeros(len(y), int)
        c.eq((nx, ny), (len(x), len(y)), 'image-shape')
        return data[np.ix_(row, col)]
    co = np.asarray(im.get_coordinates())                 # quad mesh corners
    data = data.reshape((co.shape[0] - 1, co.shape[1] - 1))
    xe, ye = co[0, :, 0], co[:, 0, 1]
    col = [int(np.flatnonzero((np.minimum(xe[:-1], xe[1:]) <= v) & (v <= np.maximum(xe[:-1], xe[1:])))[0]) for v in x]
    row = [int(np.flatnonzero((np.minimum(ye[:-1], ye[1:]) <= v) & (v <= np.maximum(ye[:-1], ye[1:])))[0]) for v in y]
    return data[np.ix_(row, col)]


@check.scenario(480, big=True)
def spectrum_2d(c):
    rng = c.rng
    kind = gen.pick(rng, 'ff2d', 'ff2d', 'nf2d')
    shape = tuple(int(v) for v in rng.integers(2, 14, 2))
    uniform = gen.coin(rng, 0.7)
    unit = gen.pick(rng, 'rad', 'deg') if kind == 'ff2d' else 'm'
    lo, hi = rng.uniform(-60, -1, 2), rng.uniform(1, 60, 2)
    if unit == 'rad':
        lo, hi = np.deg2rad(lo), np.deg2rad(hi)
    cls = G.FarField2DSearchGrid if kind == 'ff2d' else G.NearField2DSearchGrid
    if uniform and gen.coin(rng):
        g = cls(tuple(lo), tuple(hi), shape, **({'unit': unit} if kind == 'ff2d' else {}))
    else:
        if uniform:
            axes = tuple(np.linspace(a, b, n) for a, b, n in zip(lo, hi, shape))
        else:
            axes = tuple(np.sort(rng.uniform(a, b, n)) for a, b, n in zip(lo, hi, shape))
            if min(np.diff(a).min() for a in axes) < 1e-6:
                c.skip('coincident nodes')
        g = cls(axes=axes, **({'unit': unit} if kind == 'ff2d' else {}))
    sp = rng.uniform(0.1, 1, g.shape) * 10 ** rng.uniform(-5, 5)
    keep = sp.copy()
    kw = {}
    est = tru = None

    def placement():
        k = int(rng.integers(1, 4))
        f = 1.2 if gen.coin(rng, 0.3) else 1.0      # some of them beyond the grid
        loc = np.stack([rng.uniform(a * f, b * f, k) for a, b in zip(lo, hi)], 1)
        return S.FarField2DSourcePlacement(loc, unit) if kind == 'ff2d' else S.NearField2DSourcePlacement(loc)
    if gen.coin(rng):
        est = kw['estimates'] = placement()
    if gen.coin(rng):
        tru = kw['ground_truth'] = placement()
    log, swap = gen.coin(rng, 0.3), gen.coin(rng)
    if log:
        kw['use_log_scale'] = True
    if swap or gen.coin(rng, 0.3):
        kw['swap_axes'] = swap
    if gen.coin(rng, 0.2):
        kw['color_map'] = 'viridis'
    how = gen.pick(rng, 'front', 'front', 'direct', 'new')
    figsize = None
    c.note(kind=kind, unit=unit, shape=shape, uniform=uniform, log=log, swap=swap, est=est is not None, tru=tru is not None, how=how, sp=sp)
    st = Stage(c, new=how == 'new')
    if how == 'direct':
        cs = plot_spectrum_2d(sp, g, st.ax, **kw)
        ax = st.ax
    elif how == 'front':
        ax, cs = plot_spectrum(sp, g, ax=st.ax, **kw)
    else:
        if gen.coin(rng):
            figsize = kw['figsize'] = (5.0, 4.0)
        ax, cs = plot_spectrum(sp, g, **kw)
    st.verify(ax, 1, figsize)
    c.eq(len(cs), 1 + (est is not None) + (tru is not None), 'containers')
    ix, iy = (1, 0) if swap else (0, 1)
    x, y = np.asarray(g.axes[ix], float), np.asarray(g.axes[iy], float)
    shown = node_values(c, cs[0], x, y)
    want = keep if swap else keep.T                       # rows: y, columns: x
    # the brightest node and the whole picture up to a positive scale
    c.close(shown / shown.max(), want / want.max(), 'spectrum-values', rtol=1e-9)
    names = g.axis_names
    c.ok(names[ix] in ax.get_xlabel() and names[iy] in ax.get_ylabel(), 'label', lambda: '{0} {1}'.format(ax.get_xlabel(), ax.get_ylabel()))
    c.ok(unit in ax.get_xlabel() and unit in ax.get_ylabel(), 'label-unit')
    xl, yl = ax.get_xlim(), ax.get_ylim()
    c.ok(xl[0] < xl[1] and yl[0] < yl[1], 'axis-direction')
    for v, l in ((x, xl), (y, yl)):
        c.ok(l[0] <= v.min() and v.max() <= l[1], 'visible', lambda: 'grid {0}..{1} shown {2}'.format(v.min(), v.max(), l))
    for src in (est, tru):
        if src is not None:
            for i, l in ((ix, xl), (iy, yl)):
                v = np.asarray(src.locations, float)[:, i]
                c.ok(l[0] <= v.min() and v.max() <= l[1], 'visible', lambda: 'sources {0} shown {1}'.format(v, l))
    c.eq(isinstance(cs[0].norm, LogNorm), log, 'scale')
    if 'color_map' in kw:
        c.eq(cs[0].get_cmap().name, 'viridis', 'color-map')
    pos = 1
    for what, src in (('estimates', est), ('truth', tru)):
        if src is not None:
            o = np.asarray(cs[pos].get_offsets(), float)
            c.close(o, np.asarray(src.locations, float)[:, [ix, iy]], what + '-locations', rtol=1e-12)
            pos += 1
    lt = legend_texts(ax)
    c.eq(('Estimates' in lt, 'Ground truth' in lt), (est is not None, tru is not None), 'legend')
    c.same(sp, keep, 'input-modified')
    plt.close('all')


def drawn_points(ax):
    """[(marker path id, points)] of the scatter collections, in drawing order."""
    out = []
    for col in ax.collections:
        if hasattr(col, '_offsets3d'):
            out.append((col.get_label(), np.stack([np.ma.getdata(v).astype(float) for v in col._offsets3d], 1)))
        elif hasattr(col, 'get_offsets'):
            out.append((col.get_label(), np.asarray(col.get_offsets(), float)))
    return out


def unique_differences(loc):
    """All pairwise differences without repetitions, sorted."""
    d = (loc[:, None, :] - loc[None, :, :]).reshape((-1, loc.shape[1]))
    tol = 1e-8 * np.abs(d).max()
    out = []
    for r in d:
        if not any(np.all(np.abs(r - s) <= tol) for s in out):
            out.append(r)
    return np.array(out)


def same_points(c, got, want, mech, scale):
    dim = got.shape[1]
    w = np.zeros((len(want), max(dim, want.shape[1])))
    w[:, :want.shape[1]] = want
    g = np.zeros((len(got), w.shape[1]))
    g[:, :dim] = got
    c.eq(len(g), len(w), mech + '-count')
    used = np.zeros(len(w), bool)
    for p in g:
        d = np.where(used, np.inf, np.abs(w - p).max(axis=1))
        i = int(np.argmin(d))
        c.ok(d[i] <= 1e-7 * scale, mech, lambda: 'no element at {0}'.format(p))
        used[i] = True


@check.scenario(480)
def arrays(c):
    rng = c.rng
    wl = 1.0
    errors = gen.coin(rng, 0.6)
    kinds = gen.pick(rng, [], ['gain_errors'], ['phase_errors', 'mutual_coupling'])

    def kw(m):
        k = list(kinds) + (['location_errors'] if errors else [])
        return {'perturbations': gen.perturbation_dict(rng, m, wl, kinds=k)} if k else {}
    if gen.coin(rng, 0.35):      # away from the origin of the coordinates
        m = gen.size(rng, 1, 7)
        loc = rng.normal(size=(m, int(rng.integers(1, 4)))) * 10 ** rng.uniform(-1, 1)
        arr = AR.ArrayDesign(loc + rng.normal(size=loc.shape[1]) * 10 ** rng.uniform(-1, 3), 'a', **kw(m))
    else:
        arr = gen.array(rng, wl, kw=kw, max_size=7)
    co = gen.coin(rng)
    show = gen.coin(rng)
    nom = np.asarray(arr.element_locations, float).copy()
    act = nom
    if errors:
        p = [q for q in arr.perturbations if type(q).__name__ == 'LocationErrors'][0]
        act = ref.apply_location_errors(nom, p.params)
    visible = show and errors
    dim = (act if visible else nom).shape[1]
    new = gen.coin(rng, 0.4)
    c.note(nom=nom, act=act, co=co, show=show, dim=dim, new=new)
    st = Stage(c, dim3=dim == 3, new=new)
    f = plot_coarray if co else plot_array
    args = [] if new and gen.coin(rng) else [st.ax]
    ax = f(arr, *args, show_location_errors=show) if show or gen.coin(rng) else f(arr, *args)
    st.verify(ax)
    c.eq(hasattr(ax, 'get_zlim'), dim == 3, 'projection')
    pts = drawn_points(ax)
    c.eq(len(pts), 2 if visible else 1, 'collections')
    tr = unique_differences if co else (lambda z: z)
    scale = max(np.abs(nom).max(), np.abs(act).max(), 1e-300)
    same_points(c, pts[0][1], tr(nom), 'nominal', scale)
    if visible:
        same_points(c, pts[1][1], tr(act), 'actual', scale)
        c.ok(pts[0][0] != pts[1][0], 'legend')
    lt = legend_texts(ax)
    c.eq(len(lt), len(pts), 'legend')
    lims = [sorted(v) for v in ([ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dim == 3 else []))]
    for _, p in pts:
        for d in range(p.shape[1]):
            c.ok(lims[d][0] <= p[:, d].min() and p[:, d].max() <= lims[d][1], 'visible',
                 lambda: 'axis {0} shows {1}, elements from {2} to {3}'.format(d, lims[d], p[:, d].min(), p[:, d].max()))
    texts = [ax.get_xlabel(), ax.get_ylabel()] + ([ax.get_zlabel()] if dim == 3 else [])
    for t, name in zip(texts, 'xyz'):
        c.ok(name in t.lower(), 'label', t)
    if dim == 3:
        ext = [v[1] - v[0] for v in lims]
        c.ok(max(ext) <= 1.5 * min(ext), 'aspect', lambda: 'unequal ranges {0}'.format(lims))
    else:
        c.eq(ax.get_aspect() in ('equal', 1, 1.0), True, 'aspect')
    c.same(np.asarray(arr.element_locations, float), nom, 'input-modified')
    c.same(np.asarray(arr.actual_element_locations, float), act, 'input-modified')
    plt.close('all')


@check.scenario(200)
def refusals(c):
    rng = c.rng
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    g = gen.grid(rng, 'ff1d', 1.0, unit=unit)
    g2 = G.FarField2DSearchGrid(size=(4, 5), unit=gen.pick(rng, 'rad', 'deg'))
    n = g.size
    sp = rng.uniform(1, 2, n)
    c.note(unit=unit, n=n)
    st = Stage(c)
    for bad in (sp[:-1], np.append(sp, 1.0), sp.reshape((-1, 1)), sp.reshape((1, -1)), [sp, sp[:-1]], (sp[:-1],), {'a': sp, 'b': sp[1:]}, np.ones((4, 5))):
        for log in (False, True):
            c.refused(lambda: plot_spectrum(bad, g, st.ax, use_log_scale=log), 'spectrum-shape')
    for bad in ([], (), {}, None, 'x', 1.0):
        c.refused(lambda: plot_spectrum(bad, g, st.ax), 'spectrum-type')
    s2 = rng.uniform(1, 2, (4, 5))
    for bad in (s2.T, s2[:-1], s2[:, :-1], s2.ravel(), s2[None]):
        c.refused(lambda: plot_spectrum(bad, g2, st.ax), 'spectrum-shape')
    others = [S.FarField1DSourcePlacement([0.1], u) for u in ('rad', 'deg', 'sin') if u != unit] + \
             [S.FarField2DSourcePlacement(np.array([[0.1, 0.2]]), 'rad'), S.NearField2DSourcePlacement(np.array([[0.1, 0.2]]))]
    for o in others:
        c.refused(lambda: plot_spectrum(sp, g, st.ax, estimates=o), 'estimates-unit')
        c.refused(lambda: plot_spectrum(sp, g, st.ax, ground_truth=o), 'truth-unit')
    others = [S.FarField2DSourcePlacement(np.array([[0.1, 0.2]]), 'rad' if g2.units[0] == 'deg' else 'deg'),
              S.FarField1DSourcePlacement([0.1], g2.units[0]), S.NearField2DSourcePlacement(np.array([[0.1, 0.2]]))]
    for o in others:
        c.refused(lambda: plot_spectrum(s2, g2, st.ax, estimates=o), 'estimates-unit')
        c.refused(lambda: plot_spectrum(s2, g2, st.ax, ground_truth=o), 'truth-unit')
    plt.close('all')
