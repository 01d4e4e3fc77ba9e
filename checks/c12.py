import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
from checks import c11
from doatools.estimation.beamforming import BartlettBeamformer

check = Check('C12',
              'arbitrary synthetic spectra (noise, plateaus, ties, monotone, constant, border peaks, positive and negative) realised through a one-sensor '
              'array with a user-defined response, spectra of all four estimators on random scenarios, user peak finders '
              'with arbitrary answers; all grid kinds and units, k from 1 to beyond the number of peaks; non-trivial = the '
              'selected points were compared with the peaks of the observed spectrum',
              ['the oracle derives peaks and ranking from the observed spectrum itself (its values are judged by C11); among '
               'peaks of exactly equal height any choice is accepted'])


def table(rng, shape):
    n = int(np.prod(shape))
    kind = gen.pick(rng, 'noise', 'noise', 'ties', 'steps', 'const', 'mono', 'waves', 'spikes', 'border', 'zeros')
    if kind == 'noise':
        v = rng.uniform(0, 1, n)
    elif kind == 'ties':
        v = rng.integers(0, 4, n).astype(float)
    elif kind == 'steps':
        v = np.repeat(rng.integers(0, 5, n), int(rng.integers(1, 5)))[:n].astype(float)
    elif kind == 'const':
        v = np.full(n, float(rng.uniform(0.1, 3)))
    elif kind == 'mono':
        v = np.sort(rng.uniform(0, 1, n))
        v = v if gen.coin(rng) else v[::-1]
    elif kind == 'waves':
        t = np.indices(shape).sum(0).reshape(-1) if len(shape) == 1 else None
        v = (1.1 + np.sin(rng.uniform(0.1, 3) * np.arange(n) + rng.uniform(0, 6))) * rng.uniform(0.5, 2)
    elif kind == 'spikes':
        v = np.zeros(n)
        v[rng.integers(0, n, max(1, n // 8))] = 10 ** rng.uniform(-3, 3, max(1, n // 8))
    elif kind == 'border':
        v = rng.uniform(0, 1, shape)
        for ax in range(len(shape)):
            sl = [slice(None)] * len(shape)
            sl[ax] = gen.pick(rng, 0, -1)
            v[tuple(sl)] += 1.0
        v = v.reshape(-1)
    else:
        v = np.zeros(n)
    return kind, v.reshape(shape) * float(10 ** rng.uniform(-3, 3))


def physical(kind, src):
    """Coordinates under which the response function sees the sources of a placement: (n, 2)."""
    loc = np.asarray(src.locations, dtype=float)
    u = src.units[0]
    if kind == 'ff1d':
        t = {'rad': lambda x: x, 'deg': np.deg2rad, 'sin': np.arcsin}[u](loc)
        return np.stack([np.pi / 2 - t, np.zeros_like(t)], 1)
    if kind == 'ff2d':
        return loc * (np.pi / 180 if u == 'deg' else 1.0)
    return loc


def seen(kind, r, az, el):
    if kind == 'nf2d':
        return np.stack(np.broadcast_arrays(r * np.cos(az), r * np.sin(az)), -1)
    return np.stack(np.broadcast_arrays(az, el), -1)


def synthetic(c, shape_spec=None):
    rng = c.rng
    kind = gen.pick(rng, 'ff1d', 'ff1d', 'ff2d', 'nf2d')
    wl = 1.0
    n = None
    if gen.coin(rng, 0.2):
        n = int(rng.integers(1, 6))
    g = gen.grid(rng, kind, wl, n)
    what, tab = table(rng, g.shape)
    pts = physical(kind, g.source_placement)
    flat = tab.reshape(-1)

    def f(r, az, el):
        q = seen(kind, r, az, el)
        d = np.abs(q[..., None, :] - pts).sum(-1)
        return flat[np.argmin(d, axis=-1)]

    return rng, kind, wl, g, what, gen.function_array(f)


def verify(c, g, res, sp, k, peaks=None, tag=''):
    """res: (resolved, estimates[, spectrum]); sp: observed spectrum in grid shape."""
    if peaks is None:
        peaks = ref.local_maxima_1d(sp)[:, None] if sp.ndim == 1 else ref.local_maxima_2d(sp)
    peaks = np.asarray(peaks).reshape((-1, sp.ndim))
    flat = np.ravel_multi_index(tuple(peaks.T), sp.shape) if len(peaks) else np.zeros(0, int)
    c.eq(bool(res[0]), len(flat) >= k, 'resolved-flag', tag + ' {0} peaks, k={1}'.format(len(flat), k))
    if not res[0]:
        c.ok(res[1] is None, 'no-estimates', tag)
        return None
    est = res[1]
    src = g.source_placement
    c.ok(type(est) is type(src), 'estimate-type', tag)
    c.eq(tuple(est.units), tuple(src.units), 'estimate-unit', tag)
    c.eq(est.size, k, 'estimate-count', tag)
    if k == 0:
        return np.zeros(0, int)
    all_loc = np.asarray(src.locations).reshape((src.size, -1))
    loc = np.asarray(est.locations).reshape((k, -1))
    idx = []
    for x in loc:
        w = np.flatnonzero(np.all(all_loc == x, axis=1))
        c.ok(len(w) >= 1, 'on-grid', lambda: '{0} estimate {1} is no grid point'.format(tag, x))
        if len(w) > 1:
            c.skip('duplicate grid points')
        idx.append(int(w[0]))
    idx = np.array(idx)
    c.ok(bool(np.all(np.diff(idx) > 0)), 'grid-order', lambda: '{0} indices {1}'.format(tag, idx))
    c.ok(set(idx) <= set(flat.tolist()), 'is-peak', lambda: '{0} indices {1}, peaks {2}'.format(tag, idx, flat))
    v = sp.reshape(-1)
    rest = [p for p in flat.tolist() if p not in set(idx.tolist())]
    if rest:
        c.ok(v[idx].min() >= v[rest].max(), 'highest', lambda: '{0} chosen {1} with {2}, left {3} with {4}'.format(
            tag, idx, v[idx], rest, v[rest]))
    return idx


def call(c, est, R, k, g):
    """Runs with and without the spectrum; the answers must agree."""
    a = est.estimate(R, gen.count(c.rng, k), return_spectrum=True)
    b = est.estimate(R, k)
    c.eq(len(a), 3, 'structure')
    c.eq(len(b), 2, 'structure')
    c.eq(tuple(a[2].shape), tuple(g.shape), 'spectrum-shape')
    c.eq(bool(a[0]), bool(b[0]), 'spectrum-option')
    if a[0]:
        c.same(b[1].locations, a[1].locations, 'spectrum-option')
    else:
        c.ok(b[1] is None, 'spectrum-option')
    return a


@check.scenario(2500, big=True)
def shapes(c):
    rng, kind, wl, g, what, arr = synthetic(c)
    est = BartlettBeamformer(arr, wl, g)
    R = np.full((1, 1), gen.pick(rng, 1.0, 1.0, -1.0))
    first = est.estimate(R, 1, return_spectrum=True)[2]
    npk = len(ref.local_maxima_1d(first) if first.ndim == 1 else ref.local_maxima_2d(first))
    c.note(kind=kind, unit=g.units[0], axes=[np.asarray(a) for a in g.axes], spectrum=what, sp=first, peaks=npk)
    c.refused(lambda: est.estimate(R, -int(rng.integers(1, 4))), 'negative-k')
    for k in {0, 1, 2, max(1, npk - 1), max(1, npk), npk + 1, int(rng.integers(1, npk + 3))}:
        a = call(c, est, R, k, g)
        c.same(a[2], first, 'spectrum-option')
        verify(c, g, a, a[2], k, tag='k={0}'.format(k))


@check.scenario(1200, big=True)
def estimators(c):
    rng, wl, arr, g, A, dA = c11.setting(c)
    m = arr.size
    name = gen.pick(rng, *c11.EST)
    k = int(rng.integers(1, m))
    j = int(rng.integers(1, m))
    cols = rng.integers(0, A.shape[1], j)
    S = A[:, cols]
    R = S @ S.conj().T + np.eye(m) * float(10 ** rng.uniform(-3, 0))
    R = 0.5 * (R + R.conj().T)
    c.note(est=name, k=k, R=R)
    if name == 'bartlett' and gen.coin(rng):
        k = gen.size(rng, 1, 12)
    if not c11.in_domain(name, R, k):
        c.skip('ill-conditioned')
    est = c11.EST[name](arr, wl, g, enable_caching=gen.coin(rng))
    a = call(c, est, R, k, g)
    verify(c, g, a, a[2], k, tag=name)


@check.scenario(1500, big=True)
def custom_finder(c):
    rng, kind, wl, g, what, arr = synthetic(c)
    seen_sp = []
    answers = []
    n = int(np.prod(g.shape))
    count = int(rng.integers(0, min(n, 8) + 1))
    pos = rng.choice(n, size=count, replace=False)
    if gen.coin(rng):
        pos = np.sort(pos)
    idx = tuple(np.asarray(i) for i in np.unravel_index(pos, g.shape))

    def finder(x):
        seen_sp.append(np.array(x))
        return tuple(i.copy() for i in idx)

    R = np.full((1, 1), gen.pick(rng, 1.0, 1.0, -1.0))
    form = int(rng.integers(2))
    if form:
        est = BartlettBeamformer(arr, wl, g, peak_finder=finder)
    else:
        name = gen.pick(rng, *c11.EST)
        arr2 = gen.array(rng, wl, max_size=6)
        while arr2.size < 2:
            arr2 = gen.array(rng, wl, max_size=6)
        R = gen.hermitian(rng, arr2.size, 'wishart')
        est = c11.EST[name](arr2, wl, g, peak_finder=finder)
    m = R.shape[0]
    k = int(rng.integers(1, count + 3)) if form or m == 2 else int(rng.integers(1, m))
    if not form and not c11.in_domain(name, R, min(k, m - 1)):
        c.skip('ill-conditioned')
    if not form:
        k = min(k, m - 1)
    c.note(kind=kind, unit=g.units[0], axes=[np.asarray(a) for a in g.axes], spectrum=what, answer=pos, k=k)
    a = call(c, est, R, k, g)
    c.ok(len(seen_sp) >= 1, 'finder-called')
    for s in seen_sp:
        c.again(s, a[2], 'finder-argument')
    verify(c, g, a, a[2], k, np.stack(idx, 1), 'custom')


@check.scenario(500, big=True)
def refinement_flags(c):
    """Refinement does not influence which peaks are found (and unresolved stays unresolved)."""
    rng, kind, wl, g, what, arr = synthetic(c)
    est = BartlettBeamformer(arr, wl, g)
    R = np.full((1, 1), gen.pick(rng, 1.0, 1.0, -1.0))
    k = gen.size(rng, 0, 6)
    c.note(kind=kind, unit=g.units[0], axes=[np.asarray(a) for a in g.axes], spectrum=what, k=k)
    a = est.estimate(R, gen.count(rng, k), return_spectrum=True)
    b = est.estimate(R, k, return_spectrum=True, refine_estimates=True, refinement_iters=1, refinement_density=2)
    c.eq(bool(b[0]), bool(a[0]), 'refined-flag')
    c.same(b[2], a[2], 'refined-spectrum')
    if a[0]:
        c.eq(b[1].size, k, 'refined-count')
        c.ok(type(b[1]) is type(a[1]), 'refined-type')
        c.eq(tuple(b[1].units), tuple(a[1].units), 'refined-unit')
    else:
        c.ok(b[1] is None, 'refined-none')
    verify(c, g, est.estimate(R, k), a[2], k)


history.register(check, ('grid',), ('bartlett', 'mvdr', 'music', 'minnorm'))
