"""Reference models: independent re-statements of the documented mathematics."""
import numpy as np

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288')
EPS = np.finfo(float).eps


def to_rad_ld(x, unit):
    x = np.asarray(x).astype(LD)
    if unit == 'rad':
        return x
    if unit == 'deg':
        return x * PI / LD(180)
    if unit == 'sin':
        return np.arcsin(x)
    raise AssertionError(unit)


def directions(kind, loc, unit):
    """Unit vectors (K,3) pointing from the origin to the far-field sources."""
    if kind == 'ff1d':
        if unit == 'sin':
            s = np.asarray(loc).astype(LD)
            c = np.sqrt(np.maximum(LD(0), (LD(1) - s) * (LD(1) + s)))
        else:
            t = to_rad_ld(loc, unit)
            s, c = np.sin(t), np.cos(t)
        return np.stack([s, c, np.zeros_like(s)], 1)
    loc = np.asarray(loc)
    az, el = to_rad_ld(loc[:, 0], unit), to_rad_ld(loc[:, 1], unit)
    return np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)], 1)


def pad3(x):
    x = np.asarray(x)
    out = np.zeros((x.shape[0], 3), dtype=LD)
    out[:, :x.shape[1]] = x
    return out


def kind_of(sources):
    n = type(sources).__name__
    if n.startswith('FarField1D'):
        return 'ff1d'
    if n.startswith('FarField2D'):
        return 'ff2d'
    return 'nf2d'


def phases(sensor_locs, kind, loc, unit, wl):
    """(M,K) phases in long double."""
    p = pad3(sensor_locs)
    w = LD(2) * PI / LD(wl)
    if kind in ('ff1d', 'ff2d'):
        u = directions(kind, loc, unit)
        # 1D sources live in the xy-plane (z has no effect); a 1D array with a
        # 1D source only sees the sine.
        return w * (p @ u.T)
    q = pad3(loc)
    dist = np.sqrt(np.sum((p[:, None, :] - q[None, :, :]) ** 2, axis=2))
    return w * (dist[0:1, :] - dist)


def phase_tol(sensor_locs, kind, loc, unit, wl, factor=64.0):
    """Rounding error bound of a float64 evaluation of the phases, (M,K)."""
    p = np.abs(pad3(sensor_locs).astype(float))
    w = 2 * np.pi / float(wl)
    size = p.sum(axis=1)[:, None]
    k = len(loc)
    if kind == 'ff1d':
        x = np.abs(np.asarray(loc, dtype=float))
        if unit == 'sin':
            c = np.sqrt(np.maximum(0, (1 - x) * (1 + x)))
            g = np.where(x == 1.0, 2.0, 1.0 + 1.0 / np.maximum(c, 1e-8))   # the cosine of exact endfire is exact
            if np.shape(sensor_locs)[1] == 1:
                g = np.ones(k)
        else:
            g = np.full(k, 3.0)
        t = size * g[None, :]
    elif kind == 'ff2d':
        t = size * np.full((1, k), 6.0)
    else:
        q = np.abs(np.asarray(loc, dtype=float)).sum(axis=1)
        t = 4 * (size + size[0:1] + q[None, :])
    return factor * EPS * w * t + factor * EPS


def expj(phi):
    """exp(j*phi) with the argument reduced in long double."""
    phi = np.asarray(phi, dtype=LD)
    return np.cos(phi).astype(float) + 1j * np.sin(phi).astype(float)


def steering(sensor_locs, sources, wl):
    kind = kind_of(sources)
    return expj(phases(sensor_locs, kind, sources.locations, sources.units[0], wl))


def steering_tol(sensor_locs, sources, wl, factor=64.0):
    kind = kind_of(sources)
    return phase_tol(sensor_locs, kind, sources.locations, sources.units[0], wl, factor)


def d_phases_ff1d(sensor_locs, loc, unit, wl):
    """d(phase)/d(location) in the unit of the location, long double (M,K)."""
    p = pad3(sensor_locs)
    w = LD(2) * PI / LD(wl)
    one_d = np.shape(sensor_locs)[1] == 1
    if unit == 'sin':
        s = np.asarray(loc).astype(LD)
        c = np.sqrt((LD(1) - s) * (LD(1) + s))
        dx = np.ones_like(s)
        dy = np.zeros_like(s) if one_d else -s / c
    else:
        t = to_rad_ld(loc, unit)
        f = PI / LD(180) if unit == 'deg' else LD(1)
        dx, dy = f * np.cos(t), -f * np.sin(t)
    return w * (np.outer(p[:, 0], dx) + np.outer(p[:, 1], dy))


def apply_location_errors(nominal, err):
    nominal, err = np.asarray(nominal), np.asarray(err)
    d = max(nominal.shape[1], err.shape[1])
    out = np.zeros((nominal.shape[0], d))
    out[:, :nominal.shape[1]] += nominal
    out[:, :err.shape[1]] += err
    return out


def pert_kind(p):
    return {'LocationErrors': 'location_errors', 'GainErrors': 'gain_errors', 'PhaseErrors': 'phase_errors',
            'MutualCoupling': 'mutual_coupling'}[type(p).__name__]


def select(perts, which):
    if which == 'all':
        return list(perts)
    if which == 'known':
        return [p for p in perts if p[2]]
    return []


def perturbed_steering(nominal, perts, sources, wl, deriv=False):
    """perts: list of (kind, params, known) in application order."""
    loc = np.asarray(nominal, dtype=float)
    for kind, v, _ in perts:
        if kind == 'location_errors':
            loc = apply_location_errors(loc, v)
    A = steering(loc, sources, wl)
    tol = steering_tol(loc, sources, wl)
    D = None
    if deriv:
        dphi = d_phases_ff1d(loc, sources.locations, sources.units[0], wl)
        D = A * (1j * dphi.astype(float))
    for kind, v, _ in perts:
        v = np.asarray(v)
        if kind == 'gain_errors':
            T = np.diag(1.0 + v)
        elif kind == 'phase_errors':
            T = np.diag(np.cos(v.astype(float)) + 1j * np.sin(v.astype(float)))
        elif kind == 'mutual_coupling':
            T = v
        else:
            continue
        A = T @ A
        tol = np.abs(T) @ tol + 1e-14 * (np.abs(T) @ np.ones_like(tol))
        if deriv:
            D = T @ D
    return (A, tol, D, loc) if deriv else (A, tol, loc)


# -- subspaces ------------------------------------------------------------------
def eig_desc(R):
    """Eigenvalues (descending) and vectors through the SVD-free Hermitian solver of scipy."""
    import scipy.linalg as sl
    w, V = sl.eigh(np.asarray(R), driver='ev')
    i = np.argsort(w)[::-1]
    return w[i], V[:, i]


def noise_projector(R, k):
    w, V = eig_desc(R)
    En = V[:, k:]
    gap = (w[k - 1] - w[k]) if 0 < k < len(w) else np.inf
    return En @ En.conj().T, gap, w


def local_maxima_1d(x):
    """Interior local maxima; a flat top counts once, at its middle (rounded down)."""
    out = []
    n = len(x)
    i = 1
    while i < n - 1:
        if x[i - 1] < x[i]:
            j = i
            while j < n - 1 and x[j + 1] == x[i]:
                j += 1
            if j < n - 1 and x[j + 1] < x[i]:
                out.append((i + j) // 2)
                i = j
        i += 1
    return np.array(out, dtype=int)


def local_maxima_2d(x):
    """Points not exceeded by any of their (up to 8) neighbours."""
    n, m = x.shape
    out = []
    for i in range(n):
        for j in range(m):
            b = x[max(0, i - 1):i + 2, max(0, j - 1):j + 2]
            if x[i, j] >= b.max():
                out.append((i, j))
    return np.array(out, dtype=int).reshape((-1, 2))
