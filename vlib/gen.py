"""Input generators shared by the checks.  Everything is drawn from the rng of
the case, so a case can be replayed from (seed, scenario, index)."""
import numpy as np

import doatools.model.arrays as A_
import doatools.model.sources as S_
import doatools.model.perturbations as P_
import doatools.estimation.grid as G_

MRLA_MAX = 20

# Multiplies the largest sizes drawn; set for every case (see Check.scenario).
BIG = 1


def coin(rng, p=0.5):
    return bool(rng.random() < p)


def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


def wavelength(rng, extreme=True):
    r = rng.random()
    if r < 0.3:
        return pick(rng, 1.0, 0.1, 2.0, 0.3)
    if r < 0.4:
        return int(rng.integers(1, 5))
    if r < 0.46:
        return np.int64(rng.integers(1, 5)) if r < 0.42 else np.float64(10 ** rng.uniform(-2, 2))
    if r < 0.83 or not extreme:
        return float(10 ** rng.uniform(-2, 2))
    return float(10 ** rng.uniform(-12, 12) if r > 0.93 else 10 ** rng.uniform(-8, 8))


def heavy_int(rng, lo, hi, tail=0.1):
    """Mostly small, sometimes anywhere in the range."""
    if BIG > 1:
        return int(rng.integers(hi, max(hi, 4) * BIG + 1))
    if rng.random() < tail:
        return int(rng.integers(lo, hi + 1))
    small = min(hi, lo + max(3, (hi - lo) // 3))
    return int(rng.integers(lo, small + 1))


def size(rng, lo, hi):
    """Like rng.integers(lo, hi), but beyond hi in a big case."""
    return int(rng.integers(lo, hi)) if BIG == 1 else int(rng.integers(hi, max(hi, 4) * BIG))


def int_kind(rng, n):
    """The same count as another kind of integer."""
    return n if rng.random() < 0.6 else pick(rng, np.int64, np.int32, np.intp)(n)


def relayout(rng, x):
    """Same values, hostile memory layout."""
    x = np.asarray(x)
    r = rng.integers(0, 6)
    if r == 0 or x.ndim == 0:
        return x.copy()
    if r == 1:
        return np.asfortranarray(x)
    if r == 2:                       # every second element of a bigger buffer
        big = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if r == 3:                       # negative strides
        rev = tuple(slice(None, None, -1) for _ in x.shape)
        return x[rev].copy()[rev]
    if r == 4:                       # read-only
        y = x.copy()
        y.setflags(write=False)
        return y
    return x.T.copy().T


# -- sensors -----------------------------------------------------------------
def spacing(rng, wl, ambiguous=True):
    r = rng.random()
    if r < 0.4:
        return wl / 2
    if r < 0.75 or not ambiguous:
        return wl / 2 * float(rng.uniform(0.2, 1.0))
    return wl * float(rng.uniform(0.5, 4.0))


def array_1d_grid(rng, wl, kw=None, max_size=12, ambiguous=True):
    kw = kw or {}
    max_size *= BIG
    d0 = spacing(rng, wl, ambiguous)
    kind = pick(rng, 'ula', 'nested', 'coprime', 'mrla', 'grid', 'grid')
    if kind == 'ula':
        return A_.UniformLinearArray(heavy_int(rng, 1, max_size // BIG), d0, **kw)
    if kind == 'nested':
        return A_.NestedArray(int(rng.integers(1, max_size // 2)), int(rng.integers(1, max_size // 2)), d0, **kw)
    if kind == 'coprime':
        m, n = pick(rng, (2, 3), (3, 4), (2, 5), (3, 5), (1, 4), (4, 5), (1, 2))
        return A_.CoPrimeArray(m, n, d0, pick(rng, 'm', '2m'), **kw)
    if kind == 'mrla':
        return A_.MinimumRedundancyLinearArray(int(rng.integers(1, min(max_size, MRLA_MAX) + 1)), d0, **kw)
    m = int(rng.integers(1, max_size + 1))
    idx = rng.choice(np.arange(-2 * max_size, 3 * max_size), size=m, replace=False)
    if coin(rng):
        idx = np.sort(idx)
    return A_.GridBasedArrayDesign(idx.reshape((-1, 1)), d0=d0, name='grid', **kw)


def array(rng, wl, ndim=None, kw=None, max_size=10, ambiguous=True):
    """Any array design.  kw (perturbations / element) may be a function of the size."""
    ndim = ndim or int(rng.integers(1, 4))
    kwf = kw if callable(kw) else (lambda m: dict(kw or {}))
    make = _array_maker(rng, wl, ndim, max_size, ambiguous)
    if callable(kw):
        m = make({}).size
        return make(kwf(m))
    return make(dict(kw or {}))


def _array_maker(rng, wl, ndim, max_size, ambiguous):
    d0 = spacing(rng, wl, ambiguous)
    small, max_size = max_size, max_size * BIG
    if ndim == 1:
        kind = pick(rng, 'grid1', 'grid1', 'custom', 'customint')
        if kind == 'grid1':
            s = int(rng.integers(2**31))
            return lambda kw: array_1d_grid(np.random.default_rng(s), wl, kw, small, ambiguous)
        m = int(rng.integers(1, max_size + 1))
        if kind == 'customint':
            loc = rng.integers(-6, 7, m)
        else:
            loc = rng.normal(size=m) * d0 * 2
        form = int(rng.integers(3))
        loc = loc.tolist() if form == 0 else (loc if form == 1 else loc.reshape((-1, 1)))
        return lambda kw: A_.ArrayDesign(loc, 'custom', **kw)
    if ndim == 2:
        kind = pick(rng, 'uca', 'ura', 'grid', 'bases', 'bases1', 'custom', 'customint')
        if kind == 'uca':
            n, r = int(rng.integers(1, max_size + 1)), wl * float(rng.uniform(0.1, 2))
            return lambda kw: A_.UniformCircularArray(n, r, **kw)
        if kind == 'ura':
            m, n = int(rng.integers(1, 4 * (1 + BIG // 4) + 1)), int(rng.integers(1, 3 * (1 + BIG // 4) + 1))
            dd = d0 if coin(rng) else [d0, d0 * float(rng.uniform(0.5, 1.5))]
            return lambda kw: A_.UniformRectangularArray(m, n, dd, **kw)
        m = int(rng.integers(1, max_size + 1))
        if kind == 'grid':
            idx = rng.integers(-3, 6, (m, 2))
            dd = d0 if coin(rng) else (d0, d0 * 1.5)
            return lambda kw: A_.GridBasedArrayDesign(idx, d0=dd, name='g', **kw)
        if kind == 'bases':
            idx = rng.integers(-3, 6, (m, 2))
            b = rng.normal(size=(2, 2)) * d0
            return lambda kw: A_.GridBasedArrayDesign(idx, name='b', bases=b, **kw)
        if kind == 'bases1':
            idx = rng.integers(-3, 6, (m, 1))
            b = rng.normal(size=(1, 2)) * d0
            return lambda kw: A_.GridBasedArrayDesign(idx, name='b', bases=b, **kw)
        loc = rng.integers(-5, 6, (m, 2)) if kind == 'customint' else rng.normal(size=(m, 2)) * d0 * 2
        loc = loc.tolist() if coin(rng, 0.3) else loc
        return lambda kw: A_.ArrayDesign(loc, 'custom', **kw)
    m = int(rng.integers(1, max_size + 1))
    kind = pick(rng, 'grid', 'bases', 'custom', 'custom', 'customint')
    if kind == 'grid':
        idx = rng.integers(-2, 4, (m, 3))
        dd = d0 if coin(rng) else (d0, d0 * 0.7, d0 * 1.3)
        return lambda kw: A_.GridBasedArrayDesign(idx, d0=dd, name='g', **kw)
    if kind == 'bases':
        d = int(rng.integers(1, 4))
        idx = rng.integers(-2, 4, (m, d))
        b = rng.normal(size=(d, 3)) * d0
        return lambda kw: A_.GridBasedArrayDesign(idx, name='b', bases=b, **kw)
    loc = rng.integers(-4, 5, (m, 3)) if kind == 'customint' else rng.normal(size=(m, 3)) * d0 * 2
    return lambda kw: A_.ArrayDesign(loc, 'custom', **kw)


# -- perturbations -------------------------------------------------------------
def structured_coupling(rng, v):
    """Coupling matrices of special structure; none of it may be exploited where it does not hold."""
    m = len(v)
    i = np.arange(m)
    kind = pick(rng, 'lower', 'upper', 'banded', 'symmetric', 'hermitian', 'diagonal', 'identity', 'toeplitz', 'one', 'permutation',
                'hollow', 'shift')
    if kind == 'lower':
        return np.tril(v)
    if kind == 'upper':
        return np.triu(v)
    if kind == 'banded':
        return np.where(np.abs(i[:, None] - i) <= 1, v, 0)
    if kind == 'symmetric':
        return (v + v.T) / 2
    if kind == 'hermitian':
        return (v + v.conj().T) / 2
    if kind == 'diagonal':
        return np.diag(np.diag(v))
    if kind == 'identity':
        return np.eye(m)
    if kind == 'toeplitz':
        return v[0][np.abs(i[:, None] - i)]
    if kind == 'one':                    # a single pair is coupled, in one direction
        w = np.eye(m, dtype=v.dtype)
        if m > 1:
            a, b = rng.permutation(m)[:2]
            w[a, b] = 0.3
        return w
    if kind == 'permutation':
        return np.eye(m)[rng.permutation(m)]
    if kind == 'hollow':
        return v - np.diag(np.diag(v)) + np.eye(m)
    return np.eye(m, dtype=int) + np.eye(m, k=1, dtype=int)


def perturbation_dict(rng, m, wl, known=None, kinds=None, strength=1.0, wild=False):
    d = {}
    names = ['location_errors', 'gain_errors', 'phase_errors', 'mutual_coupling']
    if kinds is None:
        kinds = [n for n in names if coin(rng, 0.6)]
    order = list(kinds)
    rng.shuffle(order)
    for n in order:
        k = coin(rng) if known is None else known
        if n == 'location_errors':
            v = rng.normal(size=(m, int(rng.integers(1, 4)))) * 0.1 * wl * strength
        elif n == 'gain_errors':
            v = rng.uniform(-0.5, 0.5, m) * strength
            if wild and coin(rng, 0.2):
                v = rng.uniform(-3, 3, m)           # reversed, dead and strong sensors
                v[rng.integers(m)] = pick(rng, -1.0, -2.0, 0.0, 5.0)
        elif n == 'phase_errors':
            v = rng.uniform(-np.pi, np.pi, m) * strength
            if coin(rng, 0.15):
                v = v * 6                           # more than one turn
        else:
            v = np.eye(m) + (rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m))) * 0.15 * strength
            if coin(rng, 0.2):
                v = v.real.copy()
            if coin(rng, 0.25):
                v = structured_coupling(rng, v)
        d[n] = (v, k)
    return d


_CLS = {'location_errors': P_.LocationErrors, 'gain_errors': P_.GainErrors,
        'phase_errors': P_.PhaseErrors, 'mutual_coupling': P_.MutualCoupling}


def perturbation_list(d):
    return [_CLS[n](v, k) for n, (v, k) in d.items()]


def perturbation_class(n):
    return _CLS[n]


# -- sources -------------------------------------------------------------------
LIMITS = {'rad': np.pi / 2, 'deg': 90.0, 'sin': 1.0}


def ff1d_locations(rng, k, unit, margin=1.0, boundary=True):
    ub = LIMITS[unit] * margin
    x = rng.uniform(-ub, ub, k)
    if boundary and k:
        r = rng.random()
        if r < 0.10:
            x[rng.integers(k)] = ub
        elif r < 0.20:
            x[rng.integers(k)] = -ub
        elif r < 0.30:
            x[rng.integers(k)] = 0.0
        elif r < 0.35 and k > 1:
            x[0] = x[1]
        elif r < 0.40:
            x[0] = pick(rng, 1e-12, -1e-9, 1e-300)
    return x


def ff1d(rng, k, unit=None, margin=1.0, boundary=True, ints=True):
    unit = unit or pick(rng, 'rad', 'deg', 'sin')
    x = ff1d_locations(rng, k, unit, margin, boundary)
    if ints and unit == 'deg' and coin(rng, 0.15):
        x = np.round(x).astype(int)
    if ints and coin(rng, 0.15):
        return S_.FarField1DSourcePlacement(x.tolist(), unit)
    if unit == 'rad' and coin(rng, 0.3):
        return S_.FarField1DSourcePlacement(x)
    return S_.FarField1DSourcePlacement(x, unit)


def ff2d_locations(rng, k, unit):
    f = np.pi / 180 if unit == 'rad' else 1.0
    az = rng.uniform(-180, 180, k)
    el = rng.uniform(-90, 90, k)
    r = rng.random()
    if k and r < 0.1:
        az[0] = pick(rng, -180, 180, 0, 90, -90)
    elif k and r < 0.2:
        el[0] = pick(rng, -90, 90, 0)
    x = np.stack([az, el], 1)
    lim = np.array([np.pi, np.pi / 2]) if unit == 'rad' else np.array([180.0, 90.0])
    return np.clip(x * f, -lim, lim)


def ff2d(rng, k, unit=None):
    unit = unit or pick(rng, 'rad', 'deg')
    x = ff2d_locations(rng, k, unit)
    if unit == 'deg' and coin(rng, 0.15):
        x = np.round(x).astype(int)
    if coin(rng, 0.15):
        return S_.FarField2DSourcePlacement(x.tolist(), unit)
    return S_.FarField2DSourcePlacement(x, unit)


def nf2d_locations(rng, k, wl, span=20.0):
    x = rng.uniform(-span, span, (k, 2)) * wl
    if k and coin(rng, 0.1):
        x[0] = x[0] * 1e3
    return x


def nf2d(rng, k, wl):
    x = nf2d_locations(rng, k, wl)
    if coin(rng, 0.1):
        return S_.NearField2DSourcePlacement(x.tolist())
    if coin(rng, 0.1):
        return S_.NearField2DSourcePlacement(rng.integers(-50, 51, (k, 2)))
    return S_.NearField2DSourcePlacement(x)


def sources(rng, k, wl, kind=None):
    kind = kind or pick(rng, 'ff1d', 'ff2d', 'nf2d')
    if kind == 'ff1d':
        return ff1d(rng, k)
    if kind == 'ff2d':
        return ff2d(rng, k)
    return nf2d(rng, k, wl)


def separated_sines(rng, k, lo=-0.9, hi=0.9, gap=None, tries=200):
    """k sorted values in [lo, hi] with pairwise distance >= gap."""
    if gap is None:
        gap = 0.5 * (hi - lo) / max(k, 1)
    slack = (hi - lo) - gap * (k - 1)
    if slack <= 0:
        return np.linspace(lo, hi, k)
    u = np.sort(rng.uniform(0, slack, k))
    x = lo + u + gap * np.arange(k)
    if k and coin(rng, 0.1):             # a source exactly at broadside
        y = x - x[rng.integers(k)]
        if y.min() >= lo and y.max() <= hi:
            return y
    return x


# -- covariances ---------------------------------------------------------------
def crandn(rng, *shape):
    return (rng.normal(size=shape) + 1j * rng.normal(size=shape)) / np.sqrt(2)


def hermitian(rng, m, kind=None, scale=None):
    """Positive definite Hermitian matrices of various kinds."""
    kind = kind or pick(rng, 'wishart', 'wishart', 'wide', 'real', 'diag')
    if kind == 'wishart':
        X = crandn(rng, m, m + int(rng.integers(1, 3 * m + 2)))
        R = X @ X.conj().T / X.shape[1]
    elif kind == 'wide':
        Q, _ = np.linalg.qr(crandn(rng, m, m))
        R = (Q * np.sort(10 ** rng.uniform(-2, 2, m))) @ Q.conj().T
    elif kind == 'real':
        X = rng.normal(size=(m, 2 * m + 1))
        R = X @ X.T / X.shape[1]
    else:
        R = np.diag(rng.uniform(0.5, 2, m)).astype(complex)
    R = 0.5 * (R + R.conj().T)
    if scale is None:
        scale = power_scale(rng)
    R = R * scale
    if coin(rng, 0.3):                   # Hermitian up to rounding, like a computed sample covariance
        u = np.triu(rng.integers(-2, 3, (m, m)), 1) * 1.1e-16
        R = R * (1 + u)
    return R


def noise_power(rng, lo=-3, hi=2):
    """A noise power in any numeric type."""
    if coin(rng, 0.2):
        v = pick(rng, 1, 2, 5, int(rng.integers(1, 30)))
        return pick(rng, v, np.int64(v), np.float64(v), np.array(v))
    v = float(10 ** rng.uniform(lo, hi))
    return np.float64(v) if coin(rng, 0.2) else v


def snapshot_count(rng, *xs):
    n = int(pick(rng, *xs))
    return np.int64(n) if coin(rng, 0.1) else n


def power_scale(rng, plain=0.7):
    """Covariances in units from attowatts to exawatts."""
    r = rng.random()
    if r < plain:
        return 1.0
    lim = 6 if r < plain + 0.6 * (1 - plain) else 18
    return float(10 ** rng.uniform(-lim, lim))


def source_cov(rng, k, kind=None):
    kind = kind or pick(rng, 'eq', 'diag', 'full')
    if kind == 'eq':
        return np.eye(k) * float(rng.uniform(0.3, 3))
    if kind == 'diag':
        return np.diag(rng.uniform(0.3, 3, k))
    X = crandn(rng, k, 3 * k + 2)
    P = X @ X.conj().T / X.shape[1]
    return 0.5 * (P + P.conj().T)


# -- search grids ----------------------------------------------------------------
def grid(rng, kind, wl, n=None, unit=None):
    """A search grid of the given source kind with roughly n points per axis."""
    if kind == 'ff1d':
        unit = unit or pick(rng, 'rad', 'deg', 'sin')
        n = n or (2 if coin(rng, 0.02) else int(rng.integers(3, 120 * BIG)))
        f = LIMITS[unit]
        r = rng.random()
        if unit == 'deg' and coin(rng, 0.1):
            # whole degrees, NumPy integers
            a = np.sort(rng.permutation(np.arange(-89, 90))[:min(n, 150)]) if coin(rng) else int(rng.integers(-89, 60)) + np.arange(min(n, 30))
            return G_.FarField1DSearchGrid(axes=(a,), unit=unit)
        if r < 0.3:
            return G_.FarField1DSearchGrid(size=n, unit=unit)
        a, b = np.sort(rng.uniform(-1, 1, 2)) * f
        if r < 0.6:
            return G_.FarField1DSearchGrid(start=a, stop=b, size=n, unit=unit)
        if r < 0.75:
            c = np.sort(rng.uniform(-1, 1, 4)) * f
            return G_.FarField1DSearchGrid(c[::2].tolist(), c[1::2].tolist(), [n // 2 + 1, n // 2 + 1], unit=unit)
        return G_.FarField1DSearchGrid(axes=(np.sort(rng.uniform(-1, 1, n)) * f,), unit=unit)
    nn = (n, n) if n else tuple(2 if coin(rng, 0.05) else int(rng.integers(3, 16 * (1 + BIG // 4))) for _ in range(2))
    if kind == 'ff2d':
        unit = unit or pick(rng, 'rad', 'deg')
        f = np.pi / 180 if unit == 'rad' else 1.0
        r = rng.random()
        if r < 0.3:
            return G_.FarField2DSearchGrid(size=nn, unit=unit)
        if unit == 'deg' and coin(rng, 0.1):
            return G_.FarField2DSearchGrid(axes=(np.sort(rng.permutation(np.arange(-179, 180))[:nn[0]]),
                                                 np.sort(rng.permutation(np.arange(-89, 90))[:nn[1]])), unit=unit)
        a, b = np.sort(rng.uniform(-179, 179, 2)) * f, np.sort(rng.uniform(-89, 89, 2)) * f
        if r < 0.8:
            return G_.FarField2DSearchGrid((a[0], b[0]), (a[1], b[1]), nn, unit=unit)
        return G_.FarField2DSearchGrid(axes=(np.sort(rng.uniform(-179, 179, nn[0])) * f, np.sort(rng.uniform(-89, 89, nn[1])) * f), unit=unit)
    x0, y0 = rng.uniform(-10, 5) * wl, rng.uniform(-10, 5) * wl
    x1, y1 = x0 + rng.uniform(0.5, 10) * wl, y0 + rng.uniform(0.5, 10) * wl
    if coin(rng, 0.8):
        return G_.NearField2DSearchGrid((x0, y0), (x1, y1), nn)
    return G_.NearField2DSearchGrid(axes=(np.sort(rng.uniform(x0, x1, nn[0])), np.sort(rng.uniform(y0, y1, nn[1]))))


def count(rng, k):
    """The number k, sometimes as a NumPy integer."""
    return pick(rng, np.int64, np.int32, np.uint16)(k) if coin(rng, 0.08) else k


# -- arbitrary spectra through the public interface ---------------------------------
def function_array(f):
    """A single sensor whose squared response at a far-field direction (az, el) or a
    near-field point is f; the Bartlett spectrum of R = [[1]] is then exactly |response|^2."""
    import doatools.model.array_elements as E_
    return A_.ArrayDesign(np.zeros((1, 1)), 'f', element=E_.CustomNonisotropicSensor(lambda r, az, el, p: np.sqrt(f(r, az, el))))
