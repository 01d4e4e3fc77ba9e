import itertools
import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
from checks import c11, c12
import doatools.model.sources as S
from doatools.estimation.beamforming import BartlettBeamformer

check = Check('C13',
              'refined runs of a one-sensor array with arbitrary smooth/rough response functions and of the four estimators on '
              'random scenarios; 1D/2D/near-field grids (uniform, segmented, non-uniform, two-point axes), peaks on borders through '
              'user peak finders, densities 1..20, 0..4 iterations and the defaults; non-trivial = every refined estimate was '
              'located on the subdivision lattice and compared with its whole neighbourhood in every iteration',
              ['where several lattice points have values equal up to rounding every one of them is accepted (and followed)'])

MAXC = 40


def placement(kind, pts, unit):
    if kind == 'ff1d':
        return S.FarField1DSourcePlacement(pts[:, 0], unit)
    if kind == 'ff2d':
        return S.FarField2DSourcePlacement(pts, unit)
    return S.NearField2DSourcePlacement(pts)


def refine_axis(ax, i, density):
    lo, hi = max(0, i - 1), min(len(ax) - 1, i + 1)
    p = np.asarray(ax, dtype=float)[lo:hi + 1]
    out = [p[0]]
    for a, b in zip(p[:-1], p[1:]):
        for j in range(1, density + 1):
            out.append(b if j == density else a + (b - a) * j / density)
    return np.array(out)


def check_one(c, kind, unit, axes, idx, loc, density, iters, value, tag):
    """loc: refined estimate of the coarse grid point idx.  value(pts) -> (v, tol), larger is better."""
    x0 = np.array([ax[i] for ax, i in zip(axes, idx)], dtype=float)
    if iters == 0:
        c.same(loc, x0, 'no-iterations', tag)
        return 'exact'
    # within one original interval
    step = []
    for d, (ax, i) in enumerate(zip(axes, idx)):
        lo, hi = ax[max(0, i - 1)], ax[min(len(ax) - 1, i + 1)]
        eps = 1e-12 * max(abs(lo), abs(hi), abs(hi - lo))
        c.ok(lo - eps <= loc[d] <= hi + eps, 'within-interval',
             lambda: '{0} axis {1}: {2} not in [{3}, {4}]'.format(tag, d, loc[d], lo, hi))
        step.append(max(hi - lo, 1e-300) / (2 * density ** iters))
    step = np.array(step)
    quantum = [1e-11 * max(np.max(np.abs(ax)), 1e-300) for ax in axes]
    v0, t0 = value(x0[None, :])
    v1, t1 = value(np.asarray(loc, dtype=float)[None, :])
    c.ok(v1[0] + t1[0] >= v0[0] - t0[0], 'not-worse', lambda: '{0} value {1} at {2}, was {3} at {4}'.format(tag, v1[0], loc, v0[0], x0))
    if np.any(step < 100 * np.array(quantum)):
        return 'flat'       # lattice points cannot be told apart
    # follow every admissible path
    state = [(tuple(np.asarray(a, dtype=float) for a in axes), tuple(idx))]
    best = np.inf
    for it in range(iters):
        nxt = []
        for ax, ix in state:
            fine = tuple(refine_axis(a, i, density) for a, i in zip(ax, ix))
            pts = np.array(list(itertools.product(*fine)))
            v, t = value(pts)
            good = v + t >= np.max(v - t)
            sel = np.flatnonzero(good)
            if len(sel) > MAXC:
                return 'flat'
            shp = tuple(len(a) for a in fine)
            for s in sel:
                nxt.append((fine, tuple(int(q) for q in np.unravel_index(s, shp))))
        uniq = {}
        for ax, ix in nxt:
            uniq[tuple(np.round(a[i] / q) for a, i, q in zip(ax, ix, quantum)) + tuple(len(a) for a in ax)
                 + tuple(float(a[0]) for a in ax)] = (ax, ix)
        state = list(uniq.values())
        if len(state) > MAXC:
            return 'flat'
    cands = np.array([[a[i] for a, i in zip(ax, ix)] for ax, ix in state])
    scale = np.array([max(abs(float(np.max(a))), abs(float(np.min(a)))) for a in axes])
    tol = 1e-5 * step + 1e-13 * scale
    hit = np.all(np.abs(cands - np.asarray(loc)) <= tol, axis=1)
    c.ok(bool(hit.any()), 'lattice-argmax', lambda: '{0} refined estimate {1} of {2}; admissible {3}'.format(tag, loc, x0, cands[:4]))
    return 'exact' if len(cands) == 1 else 'tie'


def options(c, heavy):
    rng = c.rng
    if gen.coin(rng, 0.15) and not heavy:
        return {}, 10, 3
    density = int(gen.pick(rng, 1, 2, 3, 4, 5, 7, 10, 20))
    iters = int(gen.pick(rng, 0, 1, 1, 2, 2, 3, 4, 5, 7, 9))
    if iters > 4:
        density = min(density, 4)
    if not heavy and iters <= 1 and gen.coin(rng, 0.2):
        density = int(rng.integers(20, 150))
    if heavy and iters > 4:
        density = min(density, 2)
    elif heavy:
        density, iters = min(density, 7), min(iters, 2)
    kw = {'refinement_density': density, 'refinement_iters': iters}
    if gen.coin(rng, 0.15):
        del kw['refinement_density']
        density = 10
        kw['refinement_iters'] = iters = min(iters, 1 if heavy else 4)
    elif gen.coin(rng, 0.15) and not heavy:
        del kw['refinement_iters']
        iters = 3
    return kw, density, iters


def finder_for(c, g, arr_out):
    """Border-happy user peak finder."""
    rng = c.rng
    n = int(np.prod(g.shape))
    pos = [int(rng.integers(n)) for _ in range(4)]
    corners = [0, n - 1, g.shape[-1] - 1, n - g.shape[-1]]
    pos = sorted(set(pos + [int(x) for x in rng.choice(corners, 2)]))
    return (lambda x: tuple(np.asarray(i) for i in np.unravel_index(np.array(pos), g.shape))), pos


def run(c, est, g, kind, R, k, value, heavy, tag=''):
    kw, density, iters = options(c, heavy)
    c.note(k=k, opts=kw)
    a = est.estimate(R, k, return_spectrum=True)
    b = est.estimate(R, k, return_spectrum=True, refine_estimates=True, **kw)
    d = est.estimate(R, k, refine_estimates=True, **kw)
    c.eq(bool(b[0]), bool(a[0]), 'flag', tag)
    c.eq(bool(d[0]), bool(a[0]), 'flag', tag)
    c.again(b[2], a[2], 'coarse-spectrum', tag)
    if not a[0]:
        c.ok(b[1] is None and d[1] is None, 'none')
        return
    c.eq(len(d), 2, 'structure')
    src = g.source_placement
    for e in (b[1], d[1]):
        c.ok(type(e) is type(src), 'type')
        c.eq(tuple(e.units), tuple(src.units), 'unit')
        c.eq(e.size, k, 'count')
    lb, ld = (np.asarray(e[1].locations).reshape((k, -1)) for e in (b, d))
    if not np.array_equal(lb, ld):                 # ties may be decided either way
        (vb, tb), (vd, td) = value(lb), value(ld)
        c.ok(np.all(np.abs(vb - vd) <= 2 * (tb + td)), 'spectrum-option', lambda: '{0} and {1}'.format(lb, ld))
    axes = [np.asarray(x) for x in g.axes]
    all_loc = np.asarray(src.locations).reshape((src.size, -1))
    coarse = np.asarray(a[1].locations).reshape((k, -1))
    fine = np.asarray(b[1].locations).reshape((k, -1))
    c.finite(fine, 'finite')
    stats = []
    for x, y in zip(coarse, fine):
        w = np.flatnonzero(np.all(all_loc == x, axis=1))
        if len(w) != 1:
            c.skip('duplicate grid points')
        idx = tuple(int(q) for q in np.unravel_index(w[0], g.shape))
        stats.append(check_one(c, kind, g.units[0], axes, idx, y, density, iters, value, tag))
    c.note(paths=','.join(sorted(set(stats))))


def smooth(rng, kind, g):
    """A positive function of the physical coordinates."""
    pts = c12.physical(kind, g.source_placement)
    lo, hi = pts.min(0), pts.max(0)
    sc = np.maximum(hi - lo, 1e-9)
    n = int(rng.integers(1, 7))
    w = rng.normal(size=(n, 2)) * float(10 ** rng.uniform(0, 1.5))
    ph = rng.uniform(0, 2 * np.pi, n)
    amp = rng.uniform(0.1, 1, n)
    form = gen.pick(rng, 'waves', 'rough', 'bumps', 'flat')
    cen = lo + rng.uniform(0, 1, (n, 2)) * sc
    wid = sc * float(10 ** rng.uniform(-1.5, 0))

    def f(r, az, el):
        q = c12.seen(kind, r, az, el)
        z = (q - lo) / sc
        if form == 'waves':
            return 4 + np.sum(amp * np.cos(z @ w.T + ph), axis=-1) / amp.sum()
        if form == 'rough':
            return 1.5 + np.sin(1e3 * (z @ w[0]) + ph[0])
        if form == 'bumps':
            return 0.2 + np.sum(amp * np.exp(-np.sum(((q[..., None, :] - cen) / wid) ** 2, -1)), -1)
        return 1.0 + 0.0 * q[..., 0]
    return form, f


@check.scenario(1500, big=True)
def synthetic(c):
    rng = c.rng
    kind = gen.pick(rng, 'ff1d', 'ff1d', 'ff2d', 'nf2d')
    n = int(rng.integers(2, 6)) if gen.coin(rng, 0.2) else None
    g = gen.grid(rng, kind, 1.0, n)
    form, f = smooth(rng, kind, g)
    kw = {}
    pos = None
    if gen.coin(rng, 0.4):
        kw['peak_finder'], pos = finder_for(c, g, None)
    est = BartlettBeamformer(gen.function_array(f), 1.0, g, **kw)
    c.note(kind=kind, unit=g.units[0], axes=[np.asarray(a) for a in g.axes], form=form, finder=pos)
    slope = 1e4 if form == 'rough' else 1e3

    def value(pts):
        src = placement(kind, pts, g.units[0])
        r, az, el = src.calc_spherical_coords(np.zeros((1, 3)))
        v = f(np.reshape(r, -1), np.reshape(az, -1), np.reshape(el, -1))
        # coordinates of a grid point may differ by rounding
        return v, np.full(v.shape, slope * 1e-13)

    run(c, est, g, kind, np.ones((1, 1)), int(rng.integers(1, 4)), value, kind != 'ff1d')


@check.scenario(700, big=True)
def estimators(c):
    rng, wl, arr, g, A, dA = c11.setting(c, max_size=6)
    m = arr.size
    kind = ref.kind_of(g.source_placement)
    name = gen.pick(rng, *c11.EST)
    k = int(rng.integers(1, min(m, 12)))
    if gen.coin(rng, 0.7):
        S_ = A[:, rng.integers(0, A.shape[1], k)] * (1 + 0.1 * rng.normal(size=k))
        # sources slightly off the grid: a small twist of the steering vectors
        R = S_ @ S_.conj().T + np.eye(m) * float(10 ** rng.uniform(-3, 0))
    else:
        R = gen.hermitian(rng, m, 'wishart')
    R = 0.5 * (R + R.conj().T)
    c.note(est=name, R=R)
    if not c11.in_domain(name, R, k):
        c.skip('ill-conditioned')
    kw = {'enable_caching': gen.coin(rng)}
    if gen.coin(rng, 0.3):
        kw['peak_finder'], pos = finder_for(c, g, None)
        c.note(finder=pos)
    est = c11.EST[name](arr, wl, g, **kw)

    def value(pts):
        src = placement(kind, pts, g.units[0])
        B, dB = steer(arr, src, wl, c)
        v, t = c11.expected(name, B, dB, R, k)
        return (v, t) if name == 'bartlett' else (-v, t)

    run(c, est, g, kind, R, k, value, kind != 'ff1d', name)


def steer(arr, src, wl, c):
    """Steering matrix with the known imperfections: as observed from the array (judged by
    C01-C04), with a rounding allowance."""
    B = arr.steering_matrix(src, wl, perturbations='known')
    size = np.abs(np.asarray(arr.actual_element_locations, dtype=float)).sum(1).max() if hasattr(arr, 'actual_element_locations') else 1.0
    loc = np.abs(np.asarray(src.locations, dtype=float)).max()
    ph = 2 * np.pi / wl * (size + (loc if src.units[0] == 'm' else 0))
    return B, np.abs(B) * 64 * ref.EPS * (1 + 4 * ph)


@check.scenario(250)
def convergence(c):
    """End to end: with an exact covariance the refined MUSIC/MVDR estimates approach off-grid sources."""
    rng = c.rng
    wl = 1.0
    m = int(rng.integers(5, 11))
    import doatools.model.arrays as Ar
    arr = Ar.UniformLinearArray(m, wl / 2)
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    n = int(rng.integers(60, 200))
    k = int(rng.integers(1, 3))
    s = gen.separated_sines(rng, k, -0.85, 0.85, 0.6)
    x = {'sin': s, 'rad': np.arcsin(s), 'deg': np.rad2deg(np.arcsin(s))}[unit]
    src = S.FarField1DSourcePlacement(x, unit)
    A = ref.steering(arr.element_locations, src, wl)
    R = A @ A.conj().T + 1e-3 * np.eye(m)
    import doatools.estimation.grid as G
    g = G.FarField1DSearchGrid(size=n, unit=unit)
    name = gen.pick(rng, 'music', 'minnorm')
    iters = int(rng.integers(1, 4))
    dens = int(rng.integers(4, 12))
    c.note(m=m, unit=unit, n=n, x=x, est=name, iters=iters, dens=dens)
    r = c11.EST[name](arr, wl, g).estimate(R, k, refine_estimates=True, refinement_density=dens, refinement_iters=iters)
    c.ok(bool(r[0]), 'resolved')
    h = np.diff(np.asarray(g.axes[0]))[0] / dens ** iters
    # the null spectrum of MUSIC has a simple quadratic zero: the best lattice point is adjacent to the truth
    c.close(r[1].locations, x, 'approaches-truth', rtol=0, atol=1.01 * h + 1e-6 * gen.LIMITS[unit])


history.register(check, ('grid',), ('bartlett', 'mvdr', 'music', 'minnorm', 'grid'))
