import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.sources as S
import doatools.model.arrays as AR

check = Check('C01',
              'random arrays (all designs, 1D-3D, integer/float coordinates), wavelengths over 16 decades, all source '
              'types and units including range limits; non-trivial = the case has sensors and sources and at least one '
              'steering/phase matrix was compared entry by entry with the geometric model in extended precision',
              ['float64 rounding of phases is bounded by 64 ulp of the summed coordinate magnitudes'])


def compare(c, arr, src, wl, locs):
    tol = ref.steering_tol(locs, src, wl)
    kind, unit = ref.kind_of(src), src.units[0]
    phi = ref.phases(locs, kind, src.locations, unit, wl)
    if float(np.max(tol, initial=0.0)) > 1e-3:
        c.skip('phase too large for float64')
    D = src.phase_delay_matrix(locs, wl)
    c.close(D, phi.astype(float), 'phase', atol=tol, rtol=1e-14)
    A = arr.steering_matrix(src, wl) if c.index % 2 else arr.steering_matrix(sources=src, wavelength=wl)
    c.close(A, ref.expj(phi), 'steering', atol=tol, rtol=1e-13)
    return A


def one(c, kind):
    rng = c.rng
    wl = gen.wavelength(rng)
    ndim = int(rng.integers(1, 4))
    arr = gen.array(rng, wl, ndim, max_size=gen.pick(rng, 4, 10, 16))
    k = gen.heavy_int(rng, 1, 40)
    src = gen.sources(rng, k, wl, kind)
    c.note(array=type(arr).__name__, loc=arr.element_locations, wl=wl, kind=kind, unit=src.units[0], src=src.locations)
    compare(c, arr, src, wl, arr.element_locations)


@check.scenario(2500, big=True)
def ff1d(c):
    one(c, 'ff1d')


@check.scenario(2500, big=True)
def ff2d(c):
    one(c, 'ff2d')


@check.scenario(2500, big=True)
def nf2d(c):
    one(c, 'nf2d')


@check.scenario(600)
def large(c):
    """Many sensors and many sources."""
    rng = c.rng
    wl = gen.wavelength(rng, False)
    ndim = int(rng.integers(1, 4))
    m = int(rng.integers(20, 200))
    locs = rng.normal(size=(m, ndim)) * wl * float(10 ** rng.uniform(-1, 2))
    arr = AR.ArrayDesign(locs, 'big')
    src = gen.sources(rng, gen.size(rng, 20, 300), wl)
    c.note(m=m, ndim=ndim, wl=wl, src=src.locations, loc=locs)
    compare(c, arr, src, wl, arr.element_locations)


@check.scenario(1500, big=True)
def dtypes_and_layouts(c):
    """Coordinates of other numeric types and layouts given directly to a placement."""
    rng = c.rng
    wl = gen.wavelength(rng, False)
    m, ndim, k = gen.size(rng, 1, 8), int(rng.integers(1, 4)), gen.size(rng, 1, 8)
    kind = gen.pick(rng, 'ff1d', 'ff2d', 'nf2d')
    form = gen.pick(rng, 'int', 'int32', 'layout', 'float32', 'srcint')
    locs = rng.normal(size=(m, ndim)) * wl
    src = gen.sources(rng, k, wl, kind)
    fac = 1.0
    if form.startswith('int'):
        locs = rng.integers(-5, 6, (m, ndim)).astype(form)
    elif form == 'layout':
        locs = gen.relayout(rng, locs)
        cls = type(src)
        x = gen.relayout(rng, src.locations)
        src = cls(x) if kind == 'nf2d' else cls(x, src.units[0])
    elif form == 'float32':
        locs = locs.astype(np.float32)
    elif form == 'srcint':
        if kind == 'ff1d':
            u = gen.pick(rng, 'rad', 'deg', 'sin')
            lim = int(gen.LIMITS[u])
            src = S.FarField1DSourcePlacement(rng.integers(-lim, lim + 1, k), u)
        elif kind == 'ff2d':
            src = S.FarField2DSourcePlacement(rng.integers(-1, 2, (k, 2)), gen.pick(rng, 'rad', 'deg'))
        else:
            src = S.NearField2DSourcePlacement(rng.integers(-5, 6, (k, 2)))
    c.note(form=form, kind=kind, unit=src.units[0], loc=locs, src=src.locations, wl=wl)
    arr = AR.ArrayDesign(locs, 'a')
    tol = ref.steering_tol(locs, src, wl)
    if form == 'float32':
        tol = tol * 2.0 ** 29 * 1.01
    phi = ref.phases(locs, kind, src.locations, src.units[0], wl)
    c.close(src.phase_delay_matrix(locs, wl), phi.astype(float), 'phase', atol=tol, rtol=1e-14 if form != 'float32' else 1e-6)
    c.close(arr.steering_matrix(src, wl), ref.expj(phi), 'steering', atol=tol, rtol=1e-13)


@check.scenario(800, big=True)
def common_offset(c):
    """A compact scene (sensors and near-field sources) far from the origin of the coordinates,
    and far-field arrays far from the origin: only differences matter for the former."""
    rng = c.rng
    wl = gen.wavelength(rng, False)
    m, ndim, k = gen.size(rng, 1, 8), int(rng.integers(1, 4)), gen.size(rng, 1, 8)
    off = wl * 10 ** rng.uniform(0, 8) * rng.normal(size=3)
    if ndim == 1:
        off[1] = 0
    if gen.coin(rng, 0.3):
        off[int(rng.integers(3))] = 0
    locs = rng.uniform(-4, 4, (m, ndim)) * wl + off[:ndim]
    arr = AR.ArrayDesign(locs, 'offset')
    if gen.coin(rng, 0.75):
        x = rng.uniform(-12, 12, (k, 2)) * wl + off[:2]
        src = S.NearField2DSourcePlacement(x)
        # distances are of the order of the scene, only the third coordinate may be the offset itself
        d = 24 * wl + (abs(off[2]) if ndim == 3 else 0)
        tol = 64 * 2.0 ** -52 * 2 * np.pi * d / wl * 4
    else:
        src = gen.sources(rng, k, wl, gen.pick(rng, 'ff1d', 'ff2d'))
        tol = ref.steering_tol(locs, src, wl)
    if np.max(tol) > 1e-3:
        c.skip('phase too large for float64')
    c.note(off=off, loc=locs, src=src.locations, wl=wl)
    phi = ref.phases(locs, ref.kind_of(src), src.locations, src.units[0], wl)
    c.close(src.phase_delay_matrix(locs, wl), phi.astype(float), 'phase', atol=tol, rtol=1e-14)
    c.close(arr.steering_matrix(src, wl), ref.expj(phi), 'steering', atol=tol, rtol=1e-13)


@check.scenario(1500, big=True)
def relations(c):
    """Physical relations between executions: unit changes, translations,
    scaling of lengths, selection of sources, sensor permutation, far limit of near-field."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-2, 2))
    ndim = int(rng.integers(1, 4))
    m = gen.size(rng, 2, 10)
    locs = rng.normal(size=(m, ndim)) * wl
    arr = AR.ArrayDesign(locs, 'a')
    k = gen.size(rng, 1, 8)
    c.note(loc=locs, wl=wl, k=k)
    th = rng.uniform(-1.5, 1.5, k)
    a1 = arr.steering_matrix(S.FarField1DSourcePlacement(th), wl)
    for u, x in (('deg', np.rad2deg(th)), ('sin', np.sin(th))):
        c.close(arr.steering_matrix(S.FarField1DSourcePlacement(x, u), wl), a1, 'units-agree', atol=1e-9)
    # a broadside angle t inside the xy-plane is azimuth 90 deg - t, elevation 0
    ae = np.stack([np.pi / 2 - th, np.zeros(k)], 1)
    c.close(arr.steering_matrix(S.FarField2DSourcePlacement(ae), wl), a1, '1d-vs-2d', atol=1e-9)
    # scale invariance
    sc = float(10 ** rng.uniform(-2, 2))
    c.close(AR.ArrayDesign(locs * sc, 'b').steering_matrix(S.FarField1DSourcePlacement(th), wl * sc), a1, 'scaling', atol=1e-9)
    # far limit of near-field: relative to the first sensor
    far = 1e6 * wl
    nf = S.NearField2DSourcePlacement(far * np.stack([np.sin(th), np.cos(th)], 1))
    c.close(arr.steering_matrix(nf, wl), a1 / a1[0:1], 'far-limit', atol=5e-4)
    # subsets and permutations
    i = rng.permutation(k)[:int(rng.integers(1, k + 1))]
    src = gen.pick(rng, S.FarField1DSourcePlacement(th), S.FarField2DSourcePlacement(ae), nf)
    full = arr.steering_matrix(src, wl)
    c.close(arr.steering_matrix(src[i], wl), full[:, i], 'subset', atol=1e-9)
    perm = np.concatenate([[0], 1 + rng.permutation(m - 1)])
    c.close(AR.ArrayDesign(locs[perm], 'p').steering_matrix(src, wl), full[perm], 'permutation', atol=1e-9)


history.register(check, ('array', 'sources', 'lattice'), ('placement', 'array'))
